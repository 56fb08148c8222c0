from mut import suite
r, done = suite("C04")
S = "scheme.py"
r("B", (S, "position = rows.index(c)", "position = c"))
r("B", (S, "rows[ic], rows[position] = rows[position], rows[ic]", "pass"))
r("B", (S, "self.s.row_swap(p[0], p[1])\n", "pass\n"))
r("B", (S, "self.invM.col_swap(p[0], p[1])", "self.invM.row_swap(p[0], p[1])"))
r("B", (S, "self.Tu.col_swap(p[0], p[1])\n", "pass\n"))
r("B", (S, "self.Tmu.row_swap(p[0], p[1])\n", "pass\n"))
r("B", (S, "self.Tmu.col_swap(p[0], p[1])\n", "pass\n"))
r("B", (S, "            self.consm[c] = ic", "            self.consm[c] = ic if ic < 2 else rows.index(ic)"))
r("B", (S, "consm[c] = self.stencil.nv_ptr[i] + leq.index(c)", "consm[c] = leq.index(c)"))
r("B", (S, "consm[cm_ieq] = self.stencil.nv_ptr[i] + leq.index(cm_ieq)", "consm[cm_ieq] = self.stencil.nv_ptr[i]"))
r("B", (S, "self.EQ_no_swap = self.EQ.copy()", "self.EQ_no_swap = self.EQ"))
r("B", (S, "self.s_no_swap = self.s.copy()", "self.s_no_swap = self.s"))
r("B", (S, "        for p in self.permutations:\n            self.EQ", "        for p in reversed(self.permutations):\n            self.EQ"))
r("B", (S, "        self._permute_consm_in_front()\n        if", "        if len(self.consm) > 1:\n            self._permute_consm_in_front()\n        if"))
r("B", (S, "self.invM = self.M.inv()", "self.invM = self.M.T"))
PERM = '''        for p in self.permutations:
            self.EQ.row_swap(p[0], p[1])
            self.s.row_swap(p[0], p[1])
            self.M.row_swap(p[0], p[1])
            self.invM.col_swap(p[0], p[1])
            self.Tu.row_swap(p[0], p[1])
            self.Tu.col_swap(p[0], p[1])
            self.Tmu.row_swap(p[0], p[1])
            self.Tmu.col_swap(p[0], p[1])
'''
r("R", (S, PERM, '''        for i, j in self.permutations:
            for vec in (self.EQ, self.s, self.M):
                vec.row_swap(i, j)
            self.invM.col_swap(i, j)
            for mat in (self.Tu, self.Tmu):
                mat.row_swap(i, j)
                mat.col_swap(i, j)
'''))
r("R", (S, PERM, '''        for i, j in self.permutations:
            self._swap(i, j)
'''), (S, "    def _permute_consm_in_front", '''    def _swap(self, i, j):
        for name in ("EQ", "s", "M", "Tu", "Tmu"):
            getattr(self, name).row_swap(i, j)
        for name in ("invM", "Tu", "Tmu"):
            getattr(self, name).col_swap(i, j)

    def _permute_consm_in_front'''))
r("R", (S, PERM, '''        self.EQ = SymbolicVector([self.EQ[i] for i in rows])
        self.s = SymbolicVector([self.s[i] for i in rows])
        self.M = self.M.extract(rows, list(range(self.M.cols)))
        self.invM = self.invM[:, rows]
        self.Tu = self.Tu[rows, rows]
        self.Tmu = self.Tmu[rows, rows]
'''))
# an order chosen at once: conserved first, then the others in their order
r("R", (S, '''        for ic, c in enumerate(self.consm.values()):
            position = rows.index(c)
            self.permutations.append([ic, position])
            rows[ic], rows[position] = rows[position], rows[ic]

''' + PERM, '''        front = list(self.consm.values())
        rows = front + [i for i in rows if i not in front]
        self.EQ = SymbolicVector([self.EQ[i] for i in rows])
        self.s = SymbolicVector([self.s[i] for i in rows])
        self.M = self.M.extract(rows, list(range(self.M.cols)))
        self.invM = self.invM[:, rows]
        self.Tu = self.Tu[rows, rows]
        self.Tmu = self.Tmu[rows, rows]
'''))
r("R", (S, '''        for ic, c in enumerate(self.consm.keys()):
            self.consm[c] = ic
''', '''        self.consm = {c: ic for ic, c in enumerate(self.consm)}
'''))
r("R", (S, '''        for ic, c in enumerate(self.consm.keys()):
            self.consm[c] = ic
''', '''        keys = list(self.consm)
        for ic in range(len(keys)):
            self.consm[keys[ic]] = ic
'''))
r("R", (S, '''                if isinstance(cm_ieq, (sp.Symbol, sp.IndexedBase)):
                    consm[cm_ieq] = self.stencil.nv_ptr[i] + leq.index(cm_ieq)
                else:
                    for c in cm_ieq:
                        consm[c] = self.stencil.nv_ptr[i] + leq.index(c)
''', '''                if isinstance(cm_ieq, (sp.Symbol, sp.IndexedBase)):
                    cm_ieq = [cm_ieq]
                start = self.stencil.nv_ptr[i]
                consm.update((c, start + leq.index(c)) for c in cm_ieq)
'''))
r("R", (S, '''        for i in range(len(self.stencil.nv_ptr) - 1):
            leq = self.EQ[self.stencil.nv_ptr[i] : self.stencil.nv_ptr[i + 1]]
            cm_ieq = consm_tmp[i]
''', '''        for i, cm_ieq in enumerate(consm_tmp):
            begin, end = self.stencil.nv_ptr[i : i + 2]
            leq = list(self.EQ)[begin:end]
'''))
r("R", (S, "self.M = sp.Matrix(scheme[0][\"M\"])", "self.M = sp.Matrix([list(row) for row in scheme[0][\"M\"]])"))
done()
