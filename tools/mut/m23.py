from mut import suite
r, done = suite("C23")
S = "scheme.py"
r("B", (S, "sp.Integer(v[j].v[d]) * LA)", "sp.Integer(v[i].v[d]) * LA)"))
r("B", (S, "sp.Integer(v[j].v[d]) * LA)", "sp.Integer(v[j].v[d]))"))
r("B", (S, "(str(self.symb_coord[d]), sp.Integer", "(\"XYZ\"[d], sp.Integer"))
r("B", (S, "v[j].v[d] * LA - u_tild[d]", "v[j].v[d] * LA + u_tild[d]"))
r("B", (S, "v[j].v[d] * LA - u_tild[d]", "v[j].v[d] * LA - u_tild[0]"))
r("B", (S, "v[j].v[d] * LA - u_tild[d]", "v[j].v[d] - u_tild[d]"))
r("B", (S, "Tu_.append(Mu_[-1] * invM_[-1])", "Tu_.append(invM_[-1] * Mu_[-1])"))
r("B", (S, "Tu_.append(Mu_[-1] * invM_[-1])", "Tu_.append(Mu_[-1] * invM_[0])"))
r("B", (S, "index = self.stencil.nv_ptr[k] + i, self.stencil.nv_ptr[k] + j", "index = self.stencil.nv_ptr[k] + i, j"))
r("B", (S, "invM[index] = invM_[k][i, j]", "invM[index] = invM_[k][j, i]"))
r("B", (S, "invM[index] = invM_[k][i, j]", "invM[index] = invM_[0][i, j]"))
r("B", (S, "Tu[index] = Tu_[k][i, j]", "Tu[i, j] = Tu_[k][i, j]"))
r("B", (S, "Tmu = Tu.subs(list(zip(u_tild, -u_tild)))", "Tmu = Tu.T"))
r("B", (S, "Tmu = Tu.subs(list(zip(u_tild, -u_tild)))", "Tmu = Tu.subs(list(zip(u_tild[:2], -u_tild[:2, 0])))"))
r("B", (S, "self.P[self.stencil.nv_ptr[iv] : self.stencil.nv_ptr[iv + 1]]", "self.P[: self.stencil.nv_ptr[iv + 1]]"))
r("B", (S, "self.stencil.get_all_velocities(i), *feq[1]", "self.stencil.get_all_velocities(0), *feq[1]"))
r("B", (S, "meq_tmp = self.M[sli, sli]", "meq_tmp = self.invM[sli, sli]"))
r("B", (S, "            if feq:\n                sli = slice(self.stencil.nv_ptr[i], self.stencil.nv_ptr[i + 1])", "            if feq:\n                sli = slice(0, self.stencil.nv[i])"))
r("B", (S, 'self.param.get("space_y", sp.Symbol("Y"))', 'self.param.get("space_x", sp.Symbol("Y"))'))
r("B", (S, "self.invM = self.M.inv()", "self.invM = self.M.T"))
r("R", (S, "                    M_[-1][i, j] = p[i].subs(sublist)\n", "                    entry = p[i].subs(sublist)\n                    M_[iv][i, j] = entry\n"))
r("R", (S, "        Tmu = Tu.subs(list(zip(u_tild, -u_tild)))", "        Tmu = Tu.subs([(u, -u) for u in u_tild])"))
r("R", (S, "        return M, invM, Tu, Tmu", "        allm = (M, invM, Tu, Tmu)\n        return allm"))
r("R", (S, '''                for i in range(nvk):
                    for j in range(nvk):
                        index = self.stencil.nv_ptr[k] + i, self.stencil.nv_ptr[k] + j
                        M[index] = M_[k][i, j]
                        invM[index] = invM_[k][i, j]

                        if self.rel_vel is not None:
                            Tu[index] = Tu_[k][i, j]
''', '''                o = self.stencil.nv_ptr[k]
                block = slice(o, o + nvk)
                M[block, block] = M_[k]
                invM[block, block] = invM_[k]
                if self.rel_vel is not None:
                    Tu[block, block] = Tu_[k]
'''))
r("R", (S, '''                eq.append([e for e in meq_tmp])
        return SymbolicVector([e for sublist in eq for e in sublist])''', '''                eq.append(list(meq_tmp))
        flat = []
        for sublist in eq:
            flat += list(sublist)
        return SymbolicVector(flat)'''))
r("R", (S, '''                    sublist = [
                        (str(self.symb_coord[d]), sp.Integer(v[j].v[d]) * LA)
                        for d in range(self.dim)
                    ]
                    M_[-1][i, j] = p[i].subs(sublist)
''', '''                    sublist = {}
                    for d, x in enumerate(self.symb_coord[: self.dim]):
                        sublist[x] = LA * sp.Integer(v[j].v[d])
                    M_[-1][i, j] = p[i].subs(sublist)
'''))
r("R", (S, '''        self.s = SymbolicVector([r for s in scheme for r in s["relaxation_parameters"]])''', '''        rates = []
        for s in scheme:
            rates.extend(s["relaxation_parameters"])
        self.s = SymbolicVector(rates)'''))
done()
