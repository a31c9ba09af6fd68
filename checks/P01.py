ASSUMPTIONS = ["numpy replaced by a symbolic implementation of the operations used (validated by replaying solver models on the real numpy)", "DOLFINx's numbering of edges and faces is that of the installed basix"]
BOUNDS = "1-3 directions; sizes per direction 1-4 (1-5 thorough; 2 at least for the internal indices), any multi-index; grids with 2^29+3 indices along one direction (2^31-1 in 1D): corners, and faces and edges of few indices; conversions for sizes 1, 2, 3, 7, 40, 1000, 46341 per direction (more thorough)"
JOBS = []
for d in (1, 2, 3):
    for m in (4, 5):
        t = m > 4
        JOBS += [dict(name=f"sets{d}_{m}", kind="py", src="h_tp", function="sets", params=dict(dim=d, max=m - (d == 3)), thorough_only=t),
                 dict(name=f"faces{d}_{m}", kind="py", src="h_tp", function="faces", params=dict(dim=d, max=m - (d == 3)), thorough_only=t),
                 dict(name=f"edges{d}_{m}", kind="py", src="h_tp", function="edges", params=dict(dim=d, max=m - (d == 3)), thorough_only=t)]
    JOBS += [dict(name=f"convert{d}", kind="py", src="h_tp", function="convert", params=dict(dim=d, sizes=[1, 2, 3, 7, 40, 1000, 46341] if d < 3 else [1, 3, 40, 2000])),
             dict(name=f"convert{d}_more", kind="py", src="h_tp", function="convert", params=dict(dim=d, sizes=[1, 2, 3, 4, 5, 6, 7, 13, 40, 1000, 2000, 46341][:12 if d < 3 else 11]), thorough_only=True)]
    JOBS += [dict(name=f"large{d}", kind="py", src="h_tp", function="large", params=dict(dim=d))]
