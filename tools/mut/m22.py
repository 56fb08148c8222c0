from mut import suite
r, done = suite("C22")
X, K, A = "simulation.py", "container.py", "storage.py"
r("B", (X, "self.domain.coords_halo), sparse=True, indexing=\"ij\"", "self.domain.coords_halo), sparse=True"))
r("B", (X, "c for c in self.domain.coords_halo", "c for c in self.domain.coords_halo[::-1]"))
r("B", (X, "            array_to_init = self.container.F\n", "            array_to_init = self.container.Fnew\n"))
r("B", (X, "            elif isinstance(v, types.FunctionType):\n                fargs = tuple(coords)\n                array_to_init[k] = v(*fargs)", "            elif isinstance(v, types.FunctionType):\n                array_to_init[k] = v(*reversed(coords))"))
r("B", (X, "fargs = tuple(coords) + extraargs", "fargs = extraargs + tuple(coords)"))
r("B", (X, "extraargs = v[1] if len(v) == 2 else ()", "extraargs = v[1][:1] if len(v) == 2 else ()"))
r("B", (X, "            self.equilibrium()\n            self.m2f()\n", "            self.m2f()\n"))
r("B", (X, "            self.equilibrium()\n            self.m2f()\n", "            self.m2f()\n            self.equilibrium()\n"))
r("B", (X, "        elif self.init_type == \"distributions\":\n            self.f2m()\n", ""))
r("B", (X, "        self.container.Fnew.array[:] = self.container.F.array[:]\n", ""))
r("B", (X, "        self.container.Fnew.array[:] = self.container.F.array[:]\n", "        self.container.Fnew.array[1:] = self.container.F.array[1:]\n"))
r("B", (X, "        self.container.Fnew.array[:] = self.container.F.array[:]\n", "        self.container.F.array[:] = self.container.Fnew.array[:]\n"))
r("B", (X, "                array_to_init[k] = v(*fargs)\n", "                array_to_init._in(k)[...] = v(*[c[1:-1] for c in fargs])\n"))
r("B", (X, "dico.get(\"inittype\", \"moments\")", "dico.get(\"init_type\", \"moments\")"))
r("B", (X, "            log.error(sss)\n            sys.exit()\n\n        if self.init_data", "            log.error(sss)\n            array_to_init = self.container.m\n\n        if self.init_data"))
r("B", (X, "            return\n\n        for k, v in self.init_data.items()", "            self.init_data = {}\n\n        for k, v in self.init_data.items()"))
r("B", (X, "            else:\n                array_to_init[k] = v\n", "            else:\n                array_to_init.array[...] = v\n"))
r("B", (X, "        for k, v in self.init_data.items():\n            if isinstance(v, tuple)", "        for k, v in list(self.init_data.items())[:2]:\n            if isinstance(v, tuple)"))
r("B", (X, "        for k, v in self.init_data.items():\n            if isinstance(v, tuple)", "        for k, (_, v) in enumerate(self.init_data.items()):\n            if isinstance(v, tuple)"))
r("B", (A, "            self.swaparray[self.consm[key]] = values", "            self.swaparray[:, ...][self.consm[key] - 1] = values"))
r("B", (K, "        self.m.set_conserved_moments(scheme.consm)", "        self.m.set_conserved_moments({k: n for n, k in enumerate(scheme.consm)})"))
s = open("/repo/pylbm/simulation.py").read()
i = s.index("        for k, v in self.init_data.items():\n"); j = s.index("        if self.init_type == \"moments\":\n            self.equilibrium()")
LOOP = s[i:j]
r("R", (X, LOOP, '''        for key, value in self.init_data.items():
            array_to_init[key] = self._initial_value(value, coords)

'''), (X, "    def transport(self, **kwargs):", '''    @staticmethod
    def _initial_value(value, coords):
        if isinstance(value, tuple):
            func, args = value[0], (value[1] if len(value) == 2 else ())
            return func(*coords, *args)
        if callable(value):
            return value(*coords)
        return value

    def transport(self, **kwargs):'''))
r("R", (X, LOOP, '''        for k, v in self.init_data.items():
            if not isinstance(v, (tuple, types.FunctionType)):
                array_to_init[k] = v
                continue
            func, *extra = v if isinstance(v, tuple) else (v,)
            args = list(coords)
            for e in extra:
                args.extend(e)
            array_to_init[k] = func(*args)

'''))
r("R", (X, "sparse=True, indexing=\"ij\"", "indexing=\"ij\""))
r("R", (X, "        coords = np.meshgrid(\n            *(c for c in self.domain.coords_halo), sparse=True, indexing=\"ij\"\n        )\n", '''        coords = []
        for i in range(self.dim):
            shape = [1] * self.dim
            shape[i] = -1
            coords.append(np.reshape(self.domain.coords_halo[i], shape))
'''))
r("R", (X, "        coords = np.meshgrid(\n            *(c for c in self.domain.coords_halo), sparse=True, indexing=\"ij\"\n        )\n", '''        coords = [c[(slice(None),) + (np.newaxis,) * (self.dim - 1 - i)] for i, c in enumerate(self.domain.coords_halo)]
'''))
r("R", (X, "self.container.Fnew.array[:] = self.container.F.array[:]", "self.container.Fnew.array[...] = self.container.F.array"))
r("R", (X, "self.container.Fnew.array[:] = self.container.F.array[:]", "np.copyto(self.container.Fnew.array, self.container.F.array)"))
r("R", (X, '''        if self.init_type == "moments":
            array_to_init = self.container.m
        elif self.init_type == "distributions":
            array_to_init = self.container.F
        else:
''', '''        by_moments = self.init_type == "moments"
        if self.init_type in ("moments", "distributions"):
            array_to_init = self.container.m if by_moments else self.container.F
        else:
'''))
r("R", (X, '''        if self.init_type == "moments":
            self.equilibrium()
            self.m2f()
        elif self.init_type == "distributions":
            self.f2m()
''', '''        if self.init_type == "distributions":
            self.f2m()
        else:
            self.equilibrium()
            self.m2f()
'''))
r("R", (X, "        if self.init_data is None:\n            log.warning(\n                \"You don't define initialization step for your conserved moments\"\n            )\n            return\n", "        if self.init_data is None:\n            log.warning(\n                \"You don't define initialization step for your conserved moments\"\n            )\n            return None\n"))
done()
