from mut import suite
r, done = suite("C10")
A, K, B, Y, X = "storage.py", "container.py", "algorithm/base.py", "symbolic.py", "simulation.py"
r("B", (A, "shape[ind[i]] = int(tmpshape[i])", "shape[i] = int(tmpshape[ind[i]])"))
r("B", (A, "np.transpose(self.array_cpu, self.index)", "np.transpose(self.array_cpu, np.argsort(self.index))"))
r("B", (A, "np.transpose(self.array_cpu, self.index)", "np.transpose(self.array_cpu, self.index).copy()"))
r("B", (A, "self.region[i][0] -= vmax[i]", "self.region[i][0] -= vmax[0]"))
r("B", (A, "self.region[i][1] += vmax[i]", "self.region[i][1] += max(vmax)"))
r("B", (A, "            ind.append(slice(vmax, -vmax))", "            ind.insert(0, slice(vmax, -vmax))"))
r("B", (A, "        for vmax in self.vmax:\n            ind.append(slice(vmax, -vmax))", "        for vmax in self.vmax:\n            ind.append(slice(max(self.vmax), -max(self.vmax)))"))
r("B", (A, "return self.swaparray[self.consm[key]][tuple(ind)]", "return self.swaparray[key][tuple(ind)]"))
r("B", (A, "return self.swaparray.shape[1:]", "return self.array.shape[1:]"))
r("B", (A, "return self.swaparray.shape[0]", "return self.array.shape[0]"))
r("B", (A, "            self.swaparray[self.consm[key]] = values", "            self.swaparray[0] = values"))
r("B", (A, "            self.swaparray[key] = values", "            self.array[key] = values"))
r("B", (A, "            ind = copy.deepcopy(sorder)\n", "            ind = list(np.argsort(sorder))\n"))
r("B", (K, "            self.F = Array(\n                self.nv,\n                self.nspace,\n                self.vmax,\n                sorder,", "            self.F = Array(\n                self.nv,\n                self.nspace,\n                self.vmax,\n                None,"))
r("B", (K, "        self.Fnew = Array(\n            self.nv,\n            self.nspace,\n            self.vmax,\n            self.sorder,", "        self.Fnew = Array(\n            self.nv,\n            self.nspace,\n            self.vmax,\n            sorder,"))
r("B", (K, "self.sorder = [self.dim] + [i for i in range(self.dim)]", "self.sorder = [i for i in range(self.dim + 1)]"))
r("B", (K, "sorder=None, default_type=AOS):\n        super(CythonContainer", "sorder=None, default_type=SOA):\n        super(CythonContainer"))
r("B", (K, "self.sorder = [i for i in range(self.dim + 1)]", "self.sorder = [i for i in range(self.dim, -1, -1)]"))
r("B", (K, "        self.F.set_conserved_moments(scheme.consm)\n", ""))
r("B", (K, "        self.Fnew.set_conserved_moments(scheme.consm)\n", ""))
r("B", (K, "self.nspace = domain.global_size", "self.nspace = list(domain.global_size)[::-1]"))
r("B", (B, "priority=self.sorder[1:])", "priority=self.sorder[:-1])"))
r("B", (B, "(self.vmax[1], ny - self.vmax[1])", "(self.vmax[0], ny - self.vmax[0])"))
r("B", (B, "(self.vmax[2], nz - self.vmax[2])", "(self.vmax[2], nz - self.vmax[1])"))
r("B", (B, "axes = sorted(range(self.dim), key=lambda i: self.sorder[1 + i])", "axes = sorted(range(self.dim), key=lambda i: self.sorder[i])"))
r("B", (B, "axes = sorted(range(self.dim), key=lambda i: self.sorder[1 + i])", "axes = range(self.dim)"))
r("B", (B, "            output[axis] = idx", "            output[self.dim - 1 - axis] = idx"))
r("B", (Y, "for p in np.argsort(priority):", "for p in priority:"))
r("B", (X, "self.algo = self._get_algorithm(dico, sorder)", "self.algo = self._get_algorithm(dico, None)"))
r("B", (X, "        sorder = self.container.sorder\n", ""))
r("B", (X, "self.container = self._get_container(sorder)", "self.container = self._get_container(None)"))
r("B", (X, "method.generate(self.container.sorder)", "method.generate(list(range(self.dim + 1)))"))
# same behaviour
r("R", (A, "        tmpshape = [nv] + self.region_size\n        shape = [0] * len(tmpshape)\n        for i in range(self.dim + 1):\n            shape[ind[i]] = int(tmpshape[i])\n",
        "        extents = [nv] + list(self.region_size)\n        shape = [int(extents[i]) for i in np.argsort(ind)]\n"))
r("R", (A, "        tmpshape = [nv] + self.region_size\n        shape = [0] * len(tmpshape)\n        for i in range(self.dim + 1):\n            shape[ind[i]] = int(tmpshape[i])\n",
        "        shape = [None] * (self.dim + 1)\n        for position, extent in zip(ind, [nv] + self.region_size):\n            shape[position] = int(extent)\n"))
r("R", (A, "self.swaparray = np.transpose(self.array_cpu, self.index)", "self.swaparray = self.array_cpu.transpose(self.index)"))
r("R", (A, "        ind = []\n        for vmax in self.vmax:\n            ind.append(slice(vmax, -vmax))\n        ind = np.asarray(ind)\n", "        ind = [slice(vmax, -vmax) for vmax in self.vmax]\n"))
r("R", (A, "        ind = []\n        for vmax in self.vmax:\n            ind.append(slice(vmax, -vmax))\n        ind = np.asarray(ind)\n", "        ind = tuple(slice(v, n - v) for v, n in zip(self.vmax, self.nspace))\n"))
r("R", (A, "            return self.swaparray[self.consm[key]][tuple(ind)]\n        return self.swaparray[key][tuple(ind)]\n", "            key = self.consm[key]\n        return self.swaparray[(key,) + tuple(ind)]\n"))
r("R", (A, "            for i in range(self.dim):\n                self.region[i][0] -= vmax[i]\n                self.region[i][1] += vmax[i]\n                self.region_size.append(self.region[i][1] - self.region[i][0])",
        "            for bounds, v in zip(self.region, vmax):\n                bounds[0] -= v\n                bounds[1] += v\n                self.region_size.append(bounds[1] - bounds[0])"))
r("R", (A, "        for k, v in consm.items():\n            self.consm[k] = v", "        self.consm.update(consm)"))
s = open("/repo/pylbm/container.py").read()
i = s.index("        if sorder:\n"); j = s.index("        self.m.set_conserved_moments")
r("R", (K, s[i:j], '''        def make():
            args = (self.nv, self.nspace, self.vmax)
            if sorder:
                return Array(*args, sorder, self.mpi_topo, gpu_support=self.gpu_support)
            return default_type(*args, self.mpi_topo, gpu_support=self.gpu_support)

        self.m = make()
        self.F = make()

'''))
r("R", (K, "[self.dim] + [i for i in range(self.dim)]", "[self.dim] + list(range(self.dim))"))
r("R", (B, "        axes = sorted(range(self.dim), key=lambda i: self.sorder[1 + i])\n        output = [None] * self.dim\n        for axis, idx in zip(axes, space_index):\n            output[axis] = idx\n        return output",
        "        order = sorted(self.sorder[1:])\n        return [space_index[order.index(s)] for s in self.sorder[1:]]"))
r("R", (B, "            [\n                (self.vmax[0], nx - self.vmax[0]),\n                (self.vmax[1], ny - self.vmax[1]),\n                (self.vmax[2], nz - self.vmax[2]),\n            ],\n", "            [(v, n - v) for v, n in zip(self.vmax, (nx, ny, nz))],\n"))
r("R", (Y, "        out = []\n        for p in np.argsort(priority):\n            out.append(array[p])\n        return out\n    else:\n        return array", "        return [array[p] for p in np.argsort(priority)]\n    return array"))
r("R", (Y, "        out = []\n        for p in np.argsort(priority):\n            out.append(array[p])\n        return out\n    else:\n        return array", "        return [array[i] for i in sorted(range(len(priority)), key=lambda i: priority[i])]\n    return array"))
r("R", (X, "        sorder = self.container.sorder\n", "").__class__((X, "        self.algo = self._get_algorithm(dico, sorder)\n", "        algo = self._get_algorithm(dico, sorder=sorder)\n        self.algo = algo\n")))
r("R", (X, "return algo_method(self.scheme, sorder, self.generator, algo_settings)", "return algo_method(\n            scheme=self.scheme,\n            sorder=sorder,\n            generator=self.generator,\n            settings=algo_settings,\n        )"))
done()
