M(ti, 0)
M(slots, 0)
M(lib, 1)
M(life, 0)
M(cc, 0)
M(opts, 0)
M(f90, 0)
M(rgr, 0)
M(dist, 0)
M(mesh, 0)
M(io, 0)
M(flux, 0)
