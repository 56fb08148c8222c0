from mut import suite
r, done = suite("C03")
A = "algorithm/base.py"
PL = "algorithm/pull.py"
r("B", (A, "space_index, -self.all_velocities)\n        fnew = self._get_indexed_on_range(\"fnew\", space_index)\n        return", "space_index, self.all_velocities)\n        fnew = self._get_indexed_on_range(\"fnew\", space_index)\n        return"))
r("B", (A, "return Eq(m, self.M * f)", "return Eq(m, self.invM * f)"))
r("B", (A, "return Eq(m, self.M * f)", "return Eq(m, self.M.T * f)"))
r("B", (A, "return Eq(f, self.invM * m)", "return Eq(f, self.M * m)"))
r("B", (A, "return Eq(f, self.invMu * m)", "return Eq(f, self.invM * m)"))
r("B", (A, "self.Mu = self.Tu * self.M", "self.Mu = self.M * self.Tu"))
r("B", (A, "self.invMu = self.invM * self.Tmu", "self.invMu = self.invM * self.Tu"))
r("B", (A, "eq = (self.Tu * self.eq)", "eq = (self.Tmu * self.eq)"))
r("B", (A, "relax = (1 - s) * m + s * eq", "relax = (1 - s) * eq + s * m"))
r("B", (A, "relax = (1 - s) * m + s * eq", "relax = (1 + s) * m - s * eq"))
r("B", (A, "relax[i] = m[i]", "pass"))
r("B", (A, "for i in range(len(self.consm)):\n                relax", "for i in range(1):\n                relax"))
r("B", (A, "s = self.s.subs(list(zip(self.mv, m)))", "s = self.s"))
r("B", (A, "code.append(self.restore_conserved_moments(m, fnew))", "pass"))
r("R", (A, "code.append(self.restore_conserved_moments(m, fnew))", "code.append(self.restore_conserved_moments(m, f))"))
r("B", (PL, "code.append(self.restore_conserved_moments(m, f))", "code.append(self.restore_conserved_moments(m, fnew))"))
r("B", (A, "self.M = scheme.M.subs(scheme.param.items())", "self.M = scheme.M"))
r("B", (A, "self.invM = scheme.invM.subs(scheme.param.items())", "self.invM = scheme.invM"))
r("B", (A, "self.Tu = scheme.Tu.subs(scheme.param.items())", "self.Tu = scheme.Tu"))
r("B", (A, "to_subs = subs_coords + list(scheme.param.items())", "to_subs = subs_coords"))
r("B", (A, "[self.mv[int(i), 0] for i in scheme.consm.values()]", "[self.mv[i, 0] for i in range(len(scheme.consm))][::-1]"))
r("B", (A, "(self.vmax[1], ny - self.vmax[1])", "(self.vmax[0], ny - self.vmax[0])"))
r("B", (A, "space_index = self._get_space_idx_full()\n        f = self._get_indexed_on_range(\"f\", space_index)\n        m = self._get_indexed_on_range(\"m\", space_index)\n        return {\"code\": For(space_index, self.m2f", "space_index = self._get_space_idx_inner()\n        f = self._get_indexed_on_range(\"f\", space_index)\n        m = self._get_indexed_on_range(\"m\", space_index)\n        return {\"code\": For(space_index, self.m2f"))
r("B", (A, "local_vars = [m]\n", "local_vars = []\n"))
r("B", (A, "            local_vars.extend(self.rel_vel_symb)", "            pass"))
r("B", (A, "If((Eq(in_or_out, valin), x))", "If((Eq(in_or_out, in_or_out), x))"))
r("B", (A, "                [nx, ny, nz][: self.dim],\n                self._natural_order(space_index),", "                [nx, ny, nz][: self.dim],\n                space_index,"))
r("B", (A, "            self.relaxation,\n            self.equilibrium,", "            self.equilibrium,"))
r("B", (PL, "f2m = self.f2m_local(f, m, with_rel_velocity)", "f2m = self.f2m_local(fnew, m, with_rel_velocity)"))
r("B", (PL, "code.append(self.m2f_local(m, fnew, with_rel_velocity))", "code.append(self.m2f_local(m, fnew))"))
r("B", (PL, "code.append(self.relaxation_local(m, with_rel_velocity))", "code.insert(0, self.relaxation_local(m, with_rel_velocity))"))
r("B", (A, "axes = sorted(range(self.dim), key=lambda i: self.sorder[1 + i])", "axes = range(self.dim)"))
r("B", (A, "Eq(m_notconsm, sp.Matrix((self.Mu * f)[nconsm:])),", "Eq(m_notconsm, sp.Matrix((self.M * f)[nconsm:])),"))
r("B", (A, "Eq(m_consm, sp.Matrix((self.M * f)[:nconsm])),\n                *self.relative_velocity(m),", "*self.relative_velocity(m),\n                Eq(m_consm, sp.Matrix((self.M * f)[:nconsm])),"))
r("B", (A, "self.all_velocities = scheme.stencil.get_all_velocities()", "self.all_velocities = scheme.stencil.get_all_velocities()[::-1]"))
# the same, written otherwise
r("R", (A, "relax = (1 - s) * m + s * eq", "relax = (s * eq) + (1 - s) * m"))
r("R", (A, "            for i in range(len(self.consm)):\n                relax[i] = m[i]", "            for i, mi in enumerate(list(m)[: len(self.consm)]):\n                relax[i] = mi"))
r("R", (A, "        return Eq(m, self.M * f)", "        M = self.M\n        res = M * f\n        return Eq(m, res)"))
r("R", (A, "        code = [self.transport_local(f, fnew)]\n        f2m = self.f2m_local(fnew, m, with_rel_velocity)\n        if isinstance(f2m, list):\n            code.extend(f2m)\n        else:\n            code.append(f2m)",
  "        f2m = self.f2m_local(fnew, m, with_rel_velocity)\n        if not isinstance(f2m, list):\n            f2m = [f2m]\n        code = [self.transport_local(f, fnew)] + f2m"))
r("R", (A, "        with_rel_velocity = True if self.rel_vel_symb else False\n\n        code", "        with_rel_velocity = self.rel_vel_symb is not None\n\n        code"))
r("R", (A, "        if m_local:\n            if split:\n                m = self._get_indexed_on_range(\"m\", space_index)\n                local_vars = [m[0]]\n            else:\n                m = sp.MatrixSymbol(\"m\", self.ns, 1)\n                local_vars = [m]\n        else:\n            m = self._get_indexed_on_range(\"m\", space_index)\n            local_vars = []\n",
  "        if m_local and not split:\n            m = sp.MatrixSymbol(\"m\", self.ns, 1)\n            local_vars = [m]\n        else:\n            m = self._get_indexed_on_range(\"m\", space_index)\n            local_vars = [m[0]] if m_local else []\n"))
r("R", (A, "        if split:\n            # code = [loop([*self.coords(), i]) for i in internal]\n            # the expressions gathered in a list share temporaries: same loop\n            code = [loop(i if isinstance(i, list) else [i]) for i in internal]\n        else:\n            # code = loop([*self.coords(), *internal])\n            code = loop(sp.flatten(internal))",
  "        groups = [i if isinstance(i, list) else [i] for i in internal] if split else [sp.flatten(internal)]\n        code = [loop(g) for g in groups]"))
r("R", (A, "            loop = lambda x: For(space_index, If((Eq(in_or_out, valin), x)))\n        else:\n            loop = lambda x: For(space_index, x)", "            test = Eq(in_or_out, valin)\n\n            def loop(x):\n                return For(space_index, If((test, x)))\n        else:\n            def loop(x):\n                return For(space_index, x)"))
r("R", (A, "        return {\"code\": For(space_index, self.f2m_local(f, m))}", "        body = self.f2m_local(f, m)\n        output = {}\n        output[\"code\"] = For(space_index, body)\n        return output"))
r("R", (A, "        for gen in to_generate:\n            name = gen.__name__\n            output = gen()\n            code = output[\"code\"]\n            local_vars = output.get(\"local_vars\", [])\n            settings = output.get(\"settings\", {})\n            self.generator.add_routine(\n                (name, code), local_vars=local_vars, settings=settings\n            )",
  "        for gen in to_generate:\n            self._add(gen.__name__, gen())\n\n    def _add(self, name, output):\n        self.generator.add_routine(\n            (name, output[\"code\"]),\n            local_vars=output.get(\"local_vars\", []),\n            settings=output.get(\"settings\", {}),\n        )"))
r("R", (A, "        return [Eq(self.rel_vel_symb[i], rel_vel[i]) for i in range(self.dim)]", "        return [Eq(u, v) for u, v in zip(self.rel_vel_symb, rel_vel)]"))
r("R", (PL, "        f2m = self.f2m_local(f, m, with_rel_velocity)\n        if isinstance(f2m, list):\n            code = f2m\n        else:\n            code = [f2m]\n", "        f2m = self.f2m_local(f, m, with_rel_velocity)\n        code = list(f2m) if isinstance(f2m, list) else [f2m]\n"))
r("R", (A, "        subs_coords = list(zip(self.symb_coord, self.symb_coord_local))\n        subs_moments = list(\n            zip(\n                scheme.consm.keys(), [self.mv[int(i), 0] for i in scheme.consm.values()]\n            )\n        )", "        subs_coords = list(zip(self.symb_coord, self.symb_coord_local))\n        subs_moments = [(k, self.mv[int(i), 0]) for k, i in scheme.consm.items()]"))
r("R", (A, "        self.consm = {}\n        for k, v in scheme.consm.items():\n            self.consm[str(k)] = v\n", "        self.consm = {str(k): v for k, v in scheme.consm.items()}\n"))
r("R", (A, "        output = [None] * self.dim\n        for axis, idx in zip(axes, space_index):\n            output[axis] = idx\n        return output", "        where = {axis: idx for axis, idx in zip(axes, space_index)}\n        return [where[axis] for axis in range(self.dim)]"))
done()
