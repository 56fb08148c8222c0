from mut import suite
r, done = suite("C07")
B = "boundary.py"
BB = "self.rhs[:] = self.feq[k, np.arange(k.size)] - self.feq[ksym, np.arange(k.size)]"
r("B", (B, BB, BB.replace("[k,", "[ksym,").replace("- self.feq[ksym", "- self.feq[k")))
r("B", (B, BB, BB.replace("] - self", "] + self")))
r("R", (B, BB, "n = np.arange(k.size)\n        feq = self.feq\n        self.rhs[:] = -feq[ksym, n] + feq[k, n]"))
r("R", (B, BB, "for i in range(k.size):\n            self.rhs[i] = self.feq[k[i], i] - self.feq[ksym[i], i]"))
r("R", (B, BB, "self.rhs = np.asarray([self.feq[a, i] - self.feq[b, i] for i, (a, b) in enumerate(zip(k, ksym))])"))
r("B", (B, "indices = self.istore[1:] + v[k].T\n        self.iload.append(np.concatenate([ksym", "indices = self.istore[1:] - v[k].T\n        self.iload.append(np.concatenate([ksym"))
r("B", (B, "self.iload.append(np.concatenate([ksym, indices]))", "self.iload.append(np.concatenate([k[np.newaxis, :], indices]))"))
r("R", (B, "self.iload.append(np.concatenate([ksym, indices]))", "self.iload.append(np.vstack((ksym, indices)))"))
r("R", (B, "self.iload.append(np.concatenate([ksym, indices]))", "load = np.empty(self.istore.shape, dtype=np.int32)\n        load[0] = ksym[0]\n        load[1:] = indices\n        self.iload.append(load)"))
r("B", (B, "mask = self.distance < 0.5\n", "mask = self.distance <= 0.6\n"))
r("B", (B, "mask = self.distance < 0.5\n", "mask = self.distance > 0.5\n"))
r("R", (B, "mask = self.distance < 0.5\n", "mask = self.distance <= 0.5\n"))
r("R", (B, "mask = self.distance < 0.5\n", "mask = 2 * self.distance < 1\n"))
r("B", (B, "self.s[mask] = 2.0 * self.distance[mask]", "self.s[mask] = self.distance[mask]"))
r("B", (B, "self.s[mask] = 0.5 / self.distance[mask]", "self.s[mask] = 1. / self.distance[mask]"))
r("B", (B, "iload2[0, mask] = k[mask]", "iload2[0, mask] = ksym[mask]"))
r("B", (B, "iload2[1:, mask] = self.istore[1:, mask] + 2 * v[k[mask]].T", "iload2[1:, mask] = self.istore[1:, mask] + v[k[mask]].T"))
r("B", (B, "iload2[1:, mask] = self.istore[1:, mask] + v[k[mask]].T\n        self.s[mask] = 0.5", "iload2[1:, mask] = self.istore[1:, mask] + 2 * v[k[mask]].T\n        self.s[mask] = 0.5"))
r("R", (B, "mask = np.logical_not(mask)\n", "mask = ~mask\n"))
r("R", (B, """        mask = self.distance < 0.5
        iload1[0, mask] = ksym[mask]
        iload2[0, mask] = ksym[mask]
        iload1[1:, mask] = self.istore[1:, mask] + v[k[mask]].T
        iload2[1:, mask] = self.istore[1:, mask] + 2 * v[k[mask]].T
        self.s[mask] = 2.0 * self.distance[mask]

        mask = np.logical_not(mask)
        iload1[0, mask] = ksym[mask]
        iload2[0, mask] = k[mask]
        iload1[1:, mask] = self.istore[1:, mask] + v[k[mask]].T
        iload2[1:, mask] = self.istore[1:, mask] + v[k[mask]].T
        self.s[mask] = 0.5 / self.distance[mask]
""", """        near = self.distance < 0.5
        first = self.istore[1:] + v[k].T
        iload1[0] = ksym
        iload1[1:] = first
        iload2[0] = np.where(near, ksym, k)
        iload2[1:] = np.where(near, first + v[k].T, first)
        self.s[:] = np.where(near, 2.0 * self.distance, 1 / (2 * self.distance))
"""))
E1 = "fstore, dist[idx] * fload0 + (1 - dist[idx]) * fload1 + rhs[idx]"
r("B", (B, E1, "fstore, dist[idx] * fload1 + (1 - dist[idx]) * fload0 + rhs[idx]"))
r("B", (B, E1, "fstore, dist[idx] * (fload0 + rhs[idx]) + (1 - dist[idx]) * fload1"))
r("R", (B, E1, "fstore, fload1 + dist[idx] * (fload0 - fload1) + rhs[idx]"))
r("B", (B, '"fcopy",', '"f",'))
r("B", (B, "fcopy = ff.array.copy()", "fcopy = ff.array"))
r("R", (B, "fcopy = ff.array.copy()", "fcopy = np.copy(ff.array)"))
r("B", (B, "-dist[idx] * fload0 + (1 - dist[idx]) * fload1 + rhs[idx],", "dist[idx] * fload0 + (1 - dist[idx]) * fload1 + rhs[idx],"))
r("B", (B, 'Eq(fstore, -fload + rhs[idx])', 'Eq(fstore, fload + rhs[idx])'))
r("B", (B, "return self.generator.module.neumannx", "return self.generator.module.neumann"))
r("B", (B, 'name = "neumannx"', 'name = "neumann"'))
r("B", (B, '("anti_bounce_back", For', '("bounce_back", For'))
r("B", (B, '("anti_bounce_back", For', '("bounce_back", For'), (B, "module.anti_bounce_back", "module.bounce_back"))
r("R", (B, '("anti_bounce_back", For', '("abb", For'), (B, "module.anti_bounce_back", "module.abb"))
r("B", (B, "indices[1] += v[k].T[1]", "indices[1] += v[k].T[0]"))
r("B", (B, "indices[2] += v[k].T[2]", "indices[1] += v[k].T[2]"))
r("R", (B, "indices[2] += v[k].T[2]", "indices[2] = indices[2] + v[k][:, 2]"))
r("B", (B, "indices = self.istore[1:].copy()\n        indices[0] +=", "indices = self.istore[1:]\n        indices[0] +="))
r("B", (B, "self.rhs[mask] *= self.s[mask]", "self.rhs[mask] *= 2 * self.s[mask]"))
r("B", (B, "self.iload[i] = np.ascontiguousarray(self.iload[i].T, dtype=np.int32)", "self.iload[i] = np.ascontiguousarray(self.iload[0].T, dtype=np.int32)"))
r("B", (B, "index=[istore[idx, k] for k in range(dim + 1)],\n            priority=sorder", "index=[istore[idx, k] for k in range(dim + 1)],\n            priority=list(range(dim + 1))"))
r("R", (B, """        self.generator.add_routine(
            ("bounce_back", For(idx, Eq(fstore, fload + rhs[idx])))
        )
""", """        routine = ("bounce_back", For(idx, [Eq(fstore, rhs[idx] + fload)]))
        self.generator.add_routine(routine)
"""))
r("R", (B, """        for i in range(len(self.iload)):
            exec("iload{i} = self.iload[{i}]".format(i=i))  # pylint: disable=exec-used

        istore = self.istore
        rhs = self.rhs
        if hasattr(self, "s"):
            dist = self.s
        ncond = istore.shape[0]
        return locals()

    def move2gpu""", """        args = {"nx": nx, "f": f, "istore": self.istore, "rhs": self.rhs, "ncond": self.istore.shape[0]}
        args.update({"iload%d" % i: l for i, l in enumerate(self.iload)})
        if dim > 1:
            args["ny"] = ny
        if dim > 2:
            args["nz"] = nz
        return args

    def move2gpu"""))
r("R", (B, """        fload0 = indexed(
            "fcopy",
            [ns, nx, ny, nz],
            index=[iload[0][idx, k] for k in range(dim + 1)],
            priority=sorder,
        )
        fload1 = indexed(
            "fcopy",
            [ns, nx, ny, nz],
            index=[iload[1][idx, k] for k in range(dim + 1)],
            priority=sorder,
        )
""", """        def load(where):
            return indexed("fcopy", [ns, nx, ny, nz], index=[where[idx, k] for k in range(dim + 1)], priority=sorder)

        fload0, fload1 = [load(i) for i in iload]
"""))
done()
