// VTK files of reparameterisations.
#include "sx_util.hpp"
#include "sx_stream.hpp"
#include <reparam_mesh.cpp>
#undef ofstream
#undef ostream
using namespace qugar;
constexpr int dim = DIM, range = RANGE, order = ORDER;
using P = Point<range>;
struct Mesh : ReparamMesh<dim, range>
{
  using ReparamMesh<dim, range>::ReparamMesh;
  std::vector<P> &pts() { return this->points_; }
  std::vector<std::size_t> &conn() { return this->connectivity_; }
  std::vector<std::size_t> &wires() { return this->wires_connectivity_; }
};
using Items = std::vector<sxs::Item>;

// ---- XML
struct Attr
{
  std::string key;
  Items value;
};
struct Node
{
  std::string name;
  std::vector<Attr> attrs;
  std::vector<Node *> children;
  Items text;
  const Items *attr(const char *k) const
  {
    for (const auto &a : attrs)
      if (a.key == k) return &a.value;
    return nullptr;
  }
};
struct Reader
{
  const Items &s;
  std::size_t at = 0;
  bool end() const { return at >= s.size(); }
  char peek() const { return end() ? '\0' : s[at].kind != 0 ? '#' : s[at].c; }
  static bool blank(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
  void skip()
  {
    while (!end() && blank(peek())) ++at;
  }
  void expect(char c)
  {
    sx_assert(peek() == c, "the file is well-formed");
    ++at;
  }
  static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '?'; }
  std::string word()
  {
    std::string w;
    while (letter(peek())) w.push_back(s[at++].c);
    sx_assert(!w.empty(), "the file is well-formed");
    return w;
  }
  //! the element starting here
  Node *element()
  {
    auto *n = new Node;
    expect('<');
    n->name = word();
    for (skip(); peek() != '>' && peek() != '/' && peek() != '?'; skip()) {
      Attr a;
      a.key = word();
      expect('=');
      const char q = peek();
      sx_assert(q == '"' || q == '\'', "the file is well-formed");
      for (++at; peek() != q; ++at) {
        sx_assert(!end(), "the file is well-formed");
        a.value.push_back(s[at]);
      }
      ++at;
      n->attrs.push_back(a);
    }
    if (peek() != '>') {
      ++at;
      expect('>');
      return n;
    }
    ++at;
    while (true) {
      sx_assert(!end(), "the file is well-formed");
      if (peek() == '<') {
        if (at + 1 < s.size() && s[at + 1].kind == 0 && s[at + 1].c == '/') break;
        n->children.push_back(element());
      } else
        n->text.push_back(s[at++]);
    }
    at += 2;
    sx_assert(word() == n->name, "elements are closed");
    skip();
    expect('>');
    return n;
  }
};
static const Node *child(const Node *n, const char *name, const int k = 0)
{
  int i = 0;
  for (const auto *c : n->children)
    if (c->name == name && i++ == k) return c;
  sx_assert(false, "the file has the elements it needs");
  return nullptr;
}
static bool is(const Items *v, const std::string &text)
{
  if (!v || v->size() != text.size()) return false;
  for (std::size_t i = 0; i < text.size(); ++i)
    if ((*v)[i].kind != 0 || (*v)[i].c != text[i]) return false;
  return true;
}
//! the numbers in a text
static Items numbers(const Items &t)
{
  Items r;
  for (std::size_t i = 0; i < t.size();) {
    if (t[i].kind == 0 && Reader::blank(t[i].c)) {
      ++i;
      continue;
    }
    if (t[i].kind != 0) {
      r.push_back(t[i++]);
    } else {
      sxs::Item n{ 1, 0, 0, 0.0, 99 };
      sx_assert(t[i].c >= '0' && t[i].c <= '9', "numbers only");
      bool frac = false;
      double scale = 1.0;
      for (; i < t.size() && t[i].kind == 0 && !Reader::blank(t[i].c); ++i) {
        if (t[i].c == '.' && !frac) {
          frac = true;
          continue;
        }
        sx_assert(t[i].c >= '0' && t[i].c <= '9', "numbers only");
        if (!frac)
          n.i = n.i * 10 + (t[i].c - '0');
        else
          n.r += (t[i].c - '0') * (scale *= 0.1);
      }
      n.r += static_cast<double>(n.i);
      if (frac) n.kind = 2;
      r.push_back(n);
    }
    sx_assert(i == t.size() || (t[i].kind == 0 && Reader::blank(t[i].c)), "numbers are separated");
  }
  return r;
}
static void integer(const Items *v, const std::int64_t n, const char *msg)
{
  sx_assert(v != nullptr, msg);
  const auto k = numbers(*v);
  sx_assert(k.size() == 1 && k[0].kind == 1, msg);
  sx_assert(k[0].i == n, msg);
}
static Node *read(const std::string &name)
{
  const auto *f = sxs::file(name.c_str());
  sx_assert(f != nullptr && f->closed, "the file is written");
  Reader r{ f->items };
  r.skip();
  if (f->items.size() > 1 && f->items[r.at + 1].kind == 0 && f->items[r.at + 1].c == '?') {
    while (r.peek() != '>') ++r.at;
    ++r.at;
  }
  r.skip();
  auto *n = r.element();
  r.skip();
  sx_assert(r.end(), "the file has one element");
  sx_assert(n->name == "VTKFile", "the file is a VTK file");
  return n;
}
static const Node *array(const Node *n, const char *name)
{
  for (const auto *c : n->children)
    if (c->name == "DataArray" && is(c->attr("Name"), name)) {
      sx_assert(is(c->attr("format"), "ascii"), "arrays are text");
      return c;
    }
  sx_assert(false, "the file has the arrays it needs");
  return nullptr;
}

//! position in VTK's cells (vtkLagrangeCurve, vtkLagrangeQuadrilateral, vtkLagrangeHexahedron) of a node
static int vtk_index(const int d, const int i, const int j, const int k, const int p, const bool old)
{
  const int m = p - 1;
  if (d == 1) return i == 0 ? 0 : i == p ? 1 : i + 1;
  const bool ib = i == 0 || i == p, jb = j == 0 || j == p, kb = k == 0 || k == p;
  if (d == 2) {
    if (ib && jb) return i ? (j ? 2 : 1) : (j ? 3 : 0);
    if (jb) return 4 + (i - 1) + (j ? 2 * m : 0);
    if (ib) return 4 + (j - 1) + (i ? m : 3 * m);
    return 4 + 4 * m + (i - 1) + m * (j - 1);
  }
  const int n = ib + jb + kb;
  if (n == 3) return (i ? (j ? 2 : 1) : (j ? 3 : 0)) + (k ? 4 : 0);
  if (n == 2) {
    if (!ib) return 8 + (i - 1) + (j ? 2 * m : 0) + (k ? 4 * m : 0);
    if (!jb) return 8 + (j - 1) + (i ? m : 3 * m) + (k ? 4 * m : 0);
    return 8 + 8 * m + (k - 1) + m * (i ? (j ? (old ? 3 : 2) : 1) : (j ? (old ? 2 : 3) : 0));
  }
  const int f = 8 + 12 * m;
  if (n == 1) {
    if (ib) return f + (j - 1) + m * (k - 1) + (i ? m * m : 0);
    if (jb) return f + 2 * m * m + (i - 1) + m * (k - 1) + (j ? m * m : 0);
    return f + 4 * m * m + (i - 1) + m * (j - 1) + (k ? m * m : 0);
  }
  return f + 6 * m * m + (i - 1) + m * ((j - 1) + m * (k - 1));
}
static void check(const std::string &name, const int d, const std::vector<P> &X, const std::vector<std::size_t> &C)
{
  const auto *root = read(name);
  sx_assert(is(root->attr("type"), "UnstructuredGrid"), "type of the file");
  const auto *ver = root->attr("version");
  sx_assert(ver != nullptr, "version of the file");
  // the edges of the hexahedra are numbered otherwise from version 2.1 on
  const auto vn = numbers(*ver);
  sx_assert(vn.size() == 1, "version of the file");
  const bool old = vn[0].r < 2.05;
  const auto *piece = child(child(root, "UnstructuredGrid"), "Piece");
  int n = 1;
  for (int i = 0; i < d; ++i) n *= order;
  const auto nc = C.size() / static_cast<std::size_t>(n);
  integer(piece->attr("NumberOfPoints"), static_cast<std::int64_t>(X.size()), "number of points");
  integer(piece->attr("NumberOfCells"), static_cast<std::int64_t>(nc), "number of cells");
  // points
  const auto *pts = child(child(piece, "Points"), "DataArray");
  sx_assert(is(pts->attr("type"), "Float64") && is(pts->attr("format"), "ascii"), "type of the points");
  integer(pts->attr("NumberOfComponents"), 3, "points have three coordinates");
  const auto x = numbers(pts->text);
  sx_assert(x.size() == 3 * X.size(), "all the points are written");
  for (std::size_t i = 0; i < x.size(); ++i) {
    const int c = static_cast<int>(i % 3);
    const double v = x[i].kind == 1 ? static_cast<double>(x[i].i) : x[i].r;
    sx_assert_eq(v, c < range ? X[i / 3](c) : 0.0, "coordinates of the points");
    if (c < range) sx_assert(x[i].kind == 2 && x[i].precision >= 17, "coordinates are written with all their digits");
  }
  // cells
  const auto *cells = child(piece, "Cells");
  const auto conn = numbers(array(cells, "connectivity")->text), off = numbers(array(cells, "offsets")->text), types = numbers(array(cells, "types")->text);
  sx_assert(conn.size() == C.size(), "all the cells are written");
  sx_assert(off.size() == nc && types.size() == nc, "all the cells are written");
  for (std::size_t c = 0; c < nc; ++c) {
    sx_assert(off[c].i == static_cast<std::int64_t>(c + 1) * n, "offsets of the cells");
    const auto t = types[c].i;
    sx_assert(t == (d == 1 ? 68 : d == 2 ? 70 : 72) || (order == 2 && t == (d == 1 ? 3 : d == 2 ? 9 : 12)), "types of the cells");
    for (int l = 0; l < n; ++l) {
      const int k = vtk_index(d, l % order, l / order % order, l / order / order, order - 1, old);
      const auto &got = conn[c * static_cast<std::size_t>(n) + static_cast<std::size_t>(k)];
      sx_assert(got.kind == 1 && got.i == static_cast<std::int64_t>(C[c * static_cast<std::size_t>(n) + static_cast<std::size_t>(l)]), "nodes of the cells in VTK's order");
    }
  }
}
extern "C" void sx_main()
{
  Mesh m(order);
  const int np = sx_choice("points", 1, 3), nc = sx_choice("cells", 0, 2), nw = sx_choice("wires", 0, 2);
  for (int i = 0; i < np; ++i) {
    P p;
    for (int d = 0; d < range; ++d) p(d) = sxu::real(sxu::idx("x", i * 3 + d), -1.0e6, 1.0e6);
    m.pts().push_back(p);
  }
  int n = 1;
  for (int d = 0; d < dim; ++d) n *= order;
  for (int i = 0; i < nc * n; ++i) {
    const int v = sx_u8(sxu::idx("node", i));
    m.conn().push_back(static_cast<std::size_t>(v));
  }
  for (int i = 0; i < nw * order; ++i) {
    const int v = sx_u8(sxu::idx("wire", i));
    m.wires().push_back(static_cast<std::size_t>(v));
  }
  const auto X = m.pts();
  const auto C = m.conn(), W = m.wires();
  m.write_VTK_file("mesh");
  check("mesh.vtu", dim, X, C);
  // the index of both files
  const auto *root = read("mesh.vtmb");
  sx_assert(is(root->attr("type"), "vtkMultiBlockDataSet"), "type of the index");
  const auto *blocks = child(root, "vtkMultiBlockDataSet");
  sx_assert(blocks->children.size() == 2, "the index names two files");
  bool interior = false;
  for (int k = 0; k < 2; ++k) {
    const auto *b = child(blocks, "DataSet", k);
    integer(b->attr("index"), k, "the index names the files in order");
    if (is(b->attr("file"), "mesh.vtu")) {
      interior = true;
      continue;
    }
    const auto *f = b->attr("file");
    sx_assert(f != nullptr, "the index names the files");
    std::string name;
    for (const auto &i : *f) name.push_back(i.c);
    check(name, 1, X, W);
  }
  sx_assert(interior, "the index names both files");
  sx_assert(sxs::files().size() == 3, "three files are written");
  sx_assert((m.get_num_points() == X.size()) & (m.get_connectivity().size() == C.size()) & (m.get_wires_connectivity().size() == W.size()), "writing keeps the mesh");
  sx_reach("end");
}
