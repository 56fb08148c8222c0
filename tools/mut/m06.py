from mut import suite
r, done = suite("C06")
M = "mpi_topology.py"
D = "domain.py"
r("B", (M, "n // nproc + ((n % nproc) > i)", "n // nproc + ((n % nproc) >= i)"))
r("B", (M, "n // nproc + ((n % nproc) > i)", "-(-n // nproc)"))
r("B", (M, "n // nproc + ((n % nproc) > i)", "n // nproc + (n % nproc if i == nproc - 1 else 0)"))
r("B", (M, "Get_topo()[0][axis]", "Get_topo()[0][0]"))
r("B", (M, "self.get_region_indices_(nz, 2)", "self.get_region_indices_(nz, 1)"))
r("B", (M, "[region_indices[i][coords[i]], region_indices[i][coords[i] + 1]]", "[region_indices[i][coords[i]], region_indices[i][coords[i] + 1] - 1]"))
r("B", (M, "[region_indices[i][coords[i]], region_indices[i][coords[i] + 1]]", "[region_indices[i][coords[0]], region_indices[i][coords[0] + 1]]"))
r("B", (M, "split = (self.npx, self.npy, self.npz)", "split = (self.npx, self.npz, self.npy)"))
r("B", (M, "mpi.Compute_dims(size, self.dim)", "mpi.Compute_dims(size, 3)"))
r("B", (M, "comm.Create_cart(self.split, period)", "comm.Create_cart(self.split)"))
r("B", (M, "self.npy = int(options().npy)", "self.npy = int(options().npx)"))
r("B", (M, "self.npx == self.npy == self.npz == 1", "self.npx == self.npy == 1"))
r("B", (D, "period = [True] * self.dim", "period = [False] * self.dim"))
r("B", (D, "comm = dico.get(\"comm\", mpi.COMM_WORLD)", "comm = mpi.COMM_WORLD"))
r("B", (D, "self.dx * (halo_size - 0.5)", "self.dx * (halo_size + 0.5)"))
r("B", (D, "region_size[k] + 2 * halo_size[k],", "region_size[k] + 2 * halo_size[0],"))
r("B", (D, "phys_box[k][0] + self.dx * region[k][1] + halo_beg[k]", "phys_box[k][1] + halo_beg[k]"))
r("B", (D, "self.dx * region[k][0] - halo_beg[k]", "self.dx * region[0][0] - halo_beg[k]"))
r("B", (D, "if region[i][1] != self.global_size[i]", "if region[i][1] != self.global_size[0]"))
r("B", (D, "                self.box_label[2 * i + 1] = -2", "                self.box_label[2 * i] = -2"))
r("B", (D, "            if region[i][0] != 0:\n                self.box_label[2 * i] = -2\n            if", "            if region[i][0] != 0:\n                self.box_label[2 * i] = -2\n            elif"))
r("B", (D, "ind_end = [-k if k > 0 else None for k in halo_size]", "ind_end = [-k - 1 if k > 0 else None for k in halo_size]"))
r("B", (D, "ind_end = [-k if k > 0 else None for k in halo_size]", "ind_end = [-1 for k in halo_size]"))
r("B", (D, "((phys_box[k][1] - phys_box[k][0]) / self.dx)", "((phys_box[k][1] - phys_box[0][0]) / self.dx)"))
r("B", (D, "        return self.coords[1]", "        return self.coords[0]"))
r("B", (D, "        return self.coords_halo[2]", "        return self.coords[2]"))
# same behaviour
SRC = open("/repo/pylbm/mpi_topology.py").read()
a = SRC.index("        region_indices = [0]\n"); b = SRC.index("    def get_region_indices(self")
r("R", (M, SRC[a:b], '''        nproc = self.cartcomm.Get_topo()[0][axis]
        q, rest = divmod(n, nproc)
        bounds = [0]
        for i in range(nproc):
            bounds.append(bounds[-1] + (q + 1 if i < rest else q))
        return bounds

'''))
r("R", (M, SRC[a:b], '''        nproc = self.cartcomm.Get_topo()[0][axis]
        quotient = n // nproc
        remainder = n % nproc
        return [i * quotient + min(i, remainder) for i in range(nproc + 1)]

'''))
a = SRC.index("        region_indices = self.get_region_indices(nx, ny, nz)"); b = SRC.index("    def set_options")
r("R", (M, SRC[a:b], '''        region_indices = self.get_region_indices(nx, ny, nz)
        return [[ind[c], ind[c + 1]] for ind, c in zip(region_indices, self.get_coords())]

'''))
r("R", (M, SRC[a:b], '''        region = []
        for indices, c in zip(self.get_region_indices(nx, ny, nz), self.get_coords()):
            region.append(list(indices[c:c + 2]))
        return region

'''))
a = SRC.index("        region_indices = [self.get_region_indices_(nx, 0)]"); b = SRC.index("    def get_coords")
r("R", (M, SRC[a:b], '''        sizes = [n for n in (nx, ny, nz) if n is not None]
        return [self.get_region_indices_(n, axis) for axis, n in enumerate(sizes)]

'''))
r("R", (M, "        if self.npx == self.npy == self.npz == 1:\n            size = comm.Get_size()\n            split = mpi.Compute_dims(size, self.dim)\n        else:\n            split = (self.npx, self.npy, self.npz)\n", "        asked = [self.npx, self.npy, self.npz]\n        if any(n != 1 for n in asked):\n            split = asked\n        else:\n            split = mpi.Compute_dims(comm.Get_size(), dim)\n"))
r("R", (M, "        self.npx = int(options().npx)\n        self.npy = int(options().npy)\n        self.npz = int(options().npz)\n", "        opts = options()\n        self.npx, self.npy, self.npz = int(opts.npx), int(opts.npy), int(opts.npz)\n"))
r("R", (D, "        period = [True] * self.dim\n\n        if dico is None:\n            comm = mpi.COMM_WORLD\n        else:\n            comm = dico.get(\"comm\", mpi.COMM_WORLD)\n        self.mpi_topo = MpiTopology(self.dim, period, comm)", "        comm = mpi.COMM_WORLD\n        if dico is not None and \"comm\" in dico:\n            comm = dico[\"comm\"]\n        self.mpi_topo = MpiTopology(self.dim, [True for _ in range(self.dim)], comm)"))
DS = open("/repo/pylbm/domain.py").read()
a = DS.index("        self.coords_halo = [\n"); b = DS.index("    def get_bounds_halo")
r("R", (D, DS[a:b], '''        self.coords_halo, self.coords = [], []
        for k in range(self.dim):
            h = halo_size[k]
            beg = phys_box[k][0] + self.dx * region[k][0] - halo_beg[k]
            end = phys_box[k][0] + self.dx * region[k][1] + halo_beg[k]
            x = np.linspace(beg, end, region_size[k] + 2 * h)
            self.coords_halo.append(x)
            self.coords.append(x[h:-h] if h > 0 else x)

'''))
r("R", (D, DS[a:b], '''        self.coords_halo = [self._axis(phys_box[k][0], region[k], halo_size[k]) for k in range(self.dim)]
        self.coords = [x[h:x.size - h] for x, h in zip(self.coords_halo, halo_size)]

    def _axis(self, origin, region, halo):
        number = region[1] - region[0] + 2 * halo
        first = origin + self.dx * (region[0] - halo + 0.5)
        return first + self.dx * np.arange(number)

'''))
a = DS.index("        for i in range(self.dim):\n            if region[i][0] != 0"); b = DS.index("        # distance to the borders\n")
r("R", (D, DS[a:b], '''        for i, ((low, high), size) in enumerate(zip(region, self.global_size)):
            if low > 0:
                self.box_label[2 * i] = -2
            if high < size:
                self.box_label[2 * i + 1] = -2

'''))
r("R", (D, DS[a:b], '''        self._mark_interfaces(region)

'''), (D, "    @property\n    def shape_halo", '''    def _mark_interfaces(self, region):
        for i in range(self.dim):
            inside = (region[i][0] != 0, region[i][1] != self.global_size[i])
            for side in range(2):
                if inside[side]:
                    self.box_label[2 * i + side] = -2

    @property
    def shape_halo'''))
r("R", (D, "        return [c.size for c in self.coords_halo]", "        return [len(c) for c in self.coords_halo]"))
r("R", (D, "        return [c.size for c in self.coords]", "        shape = []\n        for c in self.coords:\n            shape.append(c.size)\n        return shape"))
r("R", (D, "(phys_box[k][1] - phys_box[k][0]) / self.dx)", "(phys_box[k][1] - phys_box[k][0]) / dico_dx)"), (D, "        phys_box = self.geom.bounds  # the physical box where the domain lies\n", "        phys_box, dico_dx = self.geom.bounds, self.dx\n"))
done()
