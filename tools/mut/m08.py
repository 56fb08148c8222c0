from mut import suite
r, done = suite("C08")
B, S = "boundary.py", "simulation.py"
r("B", (B, "ind = np.where(domain.flag[num] == self.label)", "ind = np.where(domain.flag[ksym] == self.label)"))
r("B", (B, "v = self.v.get_symmetric()\n", "v = self.v\n"))
r("B", (B, "self.indices += np.asarray(v.v)[:, np.newaxis]", "self.indices -= np.asarray(v.v)[:, np.newaxis]"))
r("R", (B, "self.indices += np.asarray(v.v)[:, np.newaxis]", "self.indices -= np.asarray(self.v.v)[:, np.newaxis]"))
r("R", (B, "if self.indices.size != 0:\n            self.indices += np.asarray(v.v)[:, np.newaxis]", "if self.indices.size:\n            for d, c in enumerate(v.v):\n                self.indices[d] += c"))
r("B", (B, "domain.distance[(num,) + ind]", "domain.distance[(ksym,) + ind]"))
r("B", (B, "domain.normal[(num,) + ind]", "domain.normal[(ksym,) + ind]"))
r("B", (B, "num = domain.stencil.unum2index[v.num]", "num = v.num"))
r("R", (B, "self.distance = np.array(domain.distance[(num,) + ind])", "self.distance = domain.distance[num][ind].copy()"))
r("R", (B, "ind = np.where(domain.flag[num] == self.label)", "ind = np.nonzero(domain.flag[num] == self.label)"))
r("B", (B, "velocity = (inumk + stencil.nv_ptr[k]) * np.ones(", "velocity = inumk * np.ones("))
r("B", (B, "velocity = (inumk + stencil.nv_ptr[k]) * np.ones(", "velocity = (numk + stencil.nv_ptr[k]) * np.ones("))
r("B", (B, "ilabel[v] = np.concatenate([ilabel[v], ilabel_tmp])", "ilabel[v] = np.concatenate([ilabel_tmp, ilabel[v]])"))
r("R", (B, """                            istore[v] = np.concatenate([istore[v], istore_tmp], axis=1)
                            ilabel[v] = np.concatenate([ilabel[v], ilabel_tmp])
                            distance[v] = np.concatenate([distance[v], distance_tmp])
                            normal[v] = np.concatenate([normal[v], normal_tmp])  #""", """                            istore[v] = np.concatenate([istore_tmp, istore[v]], axis=1)
                            ilabel[v] = np.concatenate([ilabel_tmp, ilabel[v]])
                            distance[v] = np.concatenate([distance_tmp, distance[v]])
                            normal[v] = np.concatenate([normal_tmp, normal[v]])"""))
r("B", (B, "distance[v] = np.concatenate([distance[v], distance_tmp])", "distance[v] = distance_tmp.copy()"))
r("B", (B, "if label in [-1, -2]:  # periodic or interface conditions\n                continue\n\n            value_bc", "if label in [-1]:\n                continue\n\n            value_bc"))
r("B", (B, 'time_bc[label] = dico_bound[label].get("time_bc", False)', 'time_bc[label] = dico_bound[label].get("time", False)'))
r("B", (B, 'value_bc[label] = dico_bound[label].get("value", None)', 'value_bc[label] = dico_bound[label].get("values", None)'))
r("R", (B, "if istore.get(v, None) is None:", "if v not in istore:"))
r("B", (B, "if istore.get(v, None) is None:", "if k not in istore:"))
r("R", (B, """                    if (
                        self.bv_per_label[label][stencil.unum2index[numk]].indices.size
                        != 0
                    ):
                        indices = self.bv_per_label[label][
                            stencil.unum2index[numk]
                        ].indices
                        distance_tmp = self.bv_per_label[label][
                            stencil.unum2index[numk]
                        ].distance
                        normal_tmp = self.bv_per_label[label][
                            stencil.unum2index[numk]
                        ].normal
                        velocity = (inumk + stencil.nv_ptr[k]) * np.ones(
                            indices.shape[1], dtype=np.int32
                        )[np.newaxis, :]
""", """                    link = self.bv_per_label[label][stencil.unum2index[numk]]
                    if link.indices.size != 0:
                        indices = link.indices
                        distance_tmp = link.distance
                        normal_tmp = link.normal
                        velocity = np.full((1, indices.shape[1]), inumk + stencil.nv_ptr[k], dtype=np.int32)
"""))
r("R", (B, """        self.methods = []
        for k in list(istore.keys()):
            self.methods.append(
                k(
                    istore[k],
                    ilabel[k],
                    distance[k],
                    normal[k],
                    stencil,
                    value_bc,
                    time_bc,
                    domain.distance.shape,
                    generator,
                )
            )
""", """        nspace = domain.distance.shape
        self.methods = [
            method(points, ilabel[method], distance[method], normal[method], stencil, value_bc, time_bc, nspace, generator)
            for method, points in istore.items()
        ]
"""))
r("B", (B, "                    distance[k],\n                    normal[k],", "                    distance[v],\n                    normal[k],"))
# values
r("B", (B, "s = 1 - self.distance[indices]", "s = self.distance[indices]"))
r("B", (B, "s = 1 - self.distance[indices]", "s = 1 - self.distance[: indices[0].size]"))
r("B", (B, "x += s * v[k, i] * simulation.domain.dx", "x -= s * v[k, i] * simulation.domain.dx"))
r("B", (B, "x += s * v[k, i] * simulation.domain.dx", "x += s * v[k, 0] * simulation.domain.dx"))
r("B", (B, "x += s * v[k, i] * simulation.domain.dx", "x += s * v[k, i]"))
r("B", (B, "x = simulation.domain.coords_halo[i][self.istore[i + 1, indices]]", "x = simulation.domain.coords_halo[i][self.istore[1, indices]]"))
r("R", (B, "x = simulation.domain.coords_halo[i][self.istore[i + 1, indices]]\n                    x += s * v[k, i] * simulation.domain.dx", "x = (\n                        simulation.domain.coords_halo[i][self.istore[i + 1, indices]]\n                        + simulation.domain.dx * v[k, i] * s\n                    )"))
r("R", (B, "s = 1 - self.distance[indices]\n", "s = 1 - self.distance[indices]\n                dx = simulation.domain.dx\n"), (B, "v[k, i] * simulation.domain.dx", "v[k, i] * dx"))
r("B", (B, "                simulation.equilibrium(m)\n                simulation.m2f(m, f)", "                simulation.m2f(m, f)\n                simulation.equilibrium(m)"))
r("B", (B, "                simulation.equilibrium(m)\n                simulation.m2f(m, f)", "                simulation.m2f(m, f)"))
r("B", (B, "            simulation.equilibrium(self.m[i])\n            simulation.m2f(self.m[i], self.f[i])", "            simulation.equilibrium(self.m[0])\n            simulation.m2f(self.m[i], self.f[i])"))
r("B", (B, "t = simulation.t\n", "t = 0\n"))
r("B", (B, "self.func[i](self.f[i], self.m[i], t, *self.args[i])", "self.func[i](self.f[i], self.m[i], t, *self.args[0])"))
r("B", (B, "self.feq[:, self.indices[i]] = self.f[i]", "self.feq[:, self.indices[0]] = self.f[i]"))
r("B", (B, "self.feq[:, indices[0]] = f.swaparray", "self.feq[:, :indices[0].size] = f.swaparray"))
r("B", (B, "                    args += value[1]", "                    args = value[1] + args"))
r("B", (B, "                    args += value[1]", "                    pass"))
r("B", (B, "m = Array(nv, nspace, 0, sorder, gpu_support=gpu_support)\n                m.set_conserved_moments(simulation.scheme.consm)", "m = Array(nv, nspace, 0, sorder, gpu_support=gpu_support)"))
r("B", (B, "m = Array(nv, nspace, 0, sorder, gpu_support=gpu_support)", "m = Array(nv, nspace, 0, None, gpu_support=gpu_support)"))
r("B", (B, "                if self.time_bc[key]:\n                    self.func.append(func)", "                if not self.time_bc[key]:\n                    self.func.append(func)"))
r("B", (B, "indices = np.where(self.ilabel == key)", "indices = np.where(self.ilabel >= key)"))
r("R", (B, """        for i in range(len(self.func)):
            self.func[i](self.f[i], self.m[i], t, *self.args[i])
            simulation.equilibrium(self.m[i])
            simulation.m2f(self.m[i], self.f[i])

            if self.generator.backend.upper() == "LOOPY":
                self.f[i].array_cpu[...] = self.f[i].array.get()

            self.feq[:, self.indices[i]] = self.f[i].swaparray.reshape(
                (nv, self.indices[i].size)
            )
""", """        for func, f, m, args, where in zip(self.func, self.f, self.m, self.args, self.indices):
            func(f, m, t, *args)
            simulation.equilibrium(m)
            simulation.m2f(m, f)
            if self.generator.backend.upper() == "LOOPY":
                f.array_cpu[...] = f.array.get()
            self.feq[:, where] = f.swaparray.reshape((nv, where.size))
"""))
r("R", (B, "                self.feq[:, indices[0]] = f.swaparray.reshape((nv, indices[0].size))\n", "                columns = indices[0]\n                values = f.swaparray.reshape((nv, -1))\n                for q in range(nv):\n                    self.feq[q, columns] = values[q]\n"))
r("R", (B, "        for key, value in self.value_bc.items():\n            if value is not None:\n", "        for key in self.value_bc:\n            value = self.value_bc[key]\n            if not (value is None):\n"))
# life cycle
r("B", (S, "            method.prepare_rhs(self)\n            method.fix_iload()\n", "            method.fix_iload()\n            method.prepare_rhs(self)\n"))
r("B", (S, "            method.fix_iload()\n            method.set_rhs()\n", "            method.set_rhs()\n            method.fix_iload()\n"))
r("B", (S, "        self.initialization()\n        for method in self.bc.methods:", "        for method in self.bc.methods:"))
r("R", (S, "        for method in self.bc.methods:\n            method.set_iload()\n            method.generate(self.container.sorder)\n", "        for method in self.bc.methods:\n            method.set_iload()\n        for method in self.bc.methods:\n            method.generate(sorder)\n"))
r("B", (S, "            method.generate(self.container.sorder)\n\n        self.generator.compile()\n", "\n        self.generator.compile()\n        for method in self.bc.methods:\n            method.generate(self.container.sorder)\n"))
r("B", (S, "            method.update_feq(self)\n            method.set_rhs()\n", "            method.set_rhs()\n            method.update_feq(self)\n"))
r("B", (S, "            method.update_feq(self)\n            method.set_rhs()\n", "            method.update_feq(self)\n"))
r("R", (S, "            method.update_feq(self)\n            method.set_rhs()\n            method.update(f, **kwargs)", "            method.update_feq(self)\n            method.set_rhs()\n        for method in self.bc.methods:\n            method.update(f, **kwargs)"))
done()
