from mut import suite
r, done = suite("C15")
S = "stencil.py"
B = lambda o, n, **k: r("B", (S, o, n), **k)
R = lambda o, n, **k: r("R", (S, o, n), **k)
B("(1 if self.vx > 0 else 0)", "(1 if self.vx >= 0 else 0)")
B("p = 2 * max(avx, avy) - 1\n", "p = 2 * max(self.vx, avy) - 1\n")
B("q = 8 * min(avx, avy) * abs(T3)", "q = 8 * min(avx, avy) * T3")
B("q = 8 * min(avx, avy) * abs(T3)", "q = 8 * min(avx, avy)")
B("[[6, 7, 7], [_d, _d, 0], [1, 4, 0]]", "[[7, 7, 6], [_d, _d, 0], [1, 4, 0]]")
B("T3 = cmp(avx, avy)", "T3 = cmp(avy, avx)")
B("n = (int)((sqrt(self.num) + 1) / 2)", "n = (int)(sqrt(self.num) / 2)")
B("n = (int)((sqrt(self.num) + 1) / 2)", "n = (int)((sqrt(self.num) + 1.5) / 2)")
B("Lx = [i, j, -j, -i, -i, -j, j, i]", "Lx = [i, j, -j, -i, -j, -i, j, i]")
B("n = self.num + 1\n", "n = self.num\n")
B("Lx, Ly = [n, -n, -n, n], [n, n, -n, -n]", "Lx, Ly = [n, n, -n, -n], [n, -n, -n, n]")
B("self.vx = int(pmk * kk)", "self.vx = int(pmi * kk)")
B("self.vz = int(pmj * jj)", "self.vz = int(pmk * jj)")
B("            return Velocity(vx=svx, vy=self.vy, vz=svz)", "            return Velocity(vx=svx, vy=svy, vz=self.vz)")
B("        return Velocity(vx=svx, vy=svy, vz=self.vz)", "        return Velocity(vx=svx, vy=svy, vz=svz)")
B("            return Velocity(vx=self.vx, vy=svy, vz=svz)", "            return Velocity(vx=-self.vx, vy=svy, vz=svz)")
B("axis >= self.dim or axis < 0", "axis > self.dim or axis < 0")
B("part.reverse()", "pass")
B("iterable.sort()\n", "pass\n")
B("v_filled[: self.dim] = self.v", "v_filled[-self.dim :] = self.v")
B("np.union1d(unique_indices, velocities)", "np.append(unique_indices, velocities)")
B("self.v.append(self.unique_velocities[ypos])", "self.v.append(self.unique_velocities[np.sort(ypos)])")
B("self.nv_ptr.append(self.nv_ptr[-1] + size)", "self.nv_ptr.append(size)")
B("return np.max(np.abs(tmp[: self.dim]), axis=1)", "return np.max(tmp[: self.dim], axis=1)")
B("return np.min(tmp[: self.dim], axis=1)", "return np.min(tmp[: self.dim], axis=0)")
B("self.unum2index[unum] = np.arange(unum.size)", "self.unum2index[unum] = unum")
B("return self[k].vx", "return self[0].vx")
B("return self[k].vy", "return self[k].vx")
B("return vectorize(self.v[k])", "return vectorize(np.sort(self.v[k]))")
B('''side="right") - 1''', '''side="left")''')
B("                    + self.nv_ptr[n]\n", "                    + n\n")
B("vk.get_symmetric(axis).num", "vk.get_symmetric().num")
B("self.num2index[self.nv_ptr[n] : self.nv_ptr[n + 1]].index(num)", "self.num2index.index(num)")
B("                all_sym = False\n", "                all_sym = is_sym\n            all_sym = is_sym\n")
B("all_velocities[self.nv_ptr[vind] : self.nv_ptr[vind + 1], :]", "all_velocities[self.nv_ptr[vind] : self.nv_ptr[vind + 1], ::-1]")
B("            vx = self.vx[scheme_id]", "            vx = self.vx[0]")
B("contains_sym = np.all(", "contains_sym = np.any(")
B("list(map(str, num[i])),", "list(map(str, self.num[i])),")
B("                num.append(self.num[i])", "                num.insert(0, self.num[i])")
R("            self.num = (2 * avx) - (1 if self.vx > 0 else 0)\n", "            if self.vx > 0:\n                self.num = 2 * avx - 1\n            else:\n                self.num = -2 * self.vx\n")
R("            p = self.num - (2 * n - 1) ** 2\n", "            first = 2 * n - 1\n            p = self.num - first * first\n")
R("i, j = n, p / 8\n", "i, j = n, p // 8\n")
R('''            n = self.num + 1
            self.vx = int((1 - 2 * (n % 2)) * (n / 2))
''', '''            half, odd = divmod(self.num, 2)
            self.vx = half + 1 if odd else -half
''')
R('''            if p < 4:
                Lx, Ly = [n, 0, -n, 0], [0, n, 0, -n]
                vx, vy = Lx[p], Ly[p]
            elif p < 8:''', '''            if 4 > p:
                vx, vy = [(n, 0), (0, n), (-n, 0), (0, -n)][p]
            elif p < 8:''')
old = '''            for k in range(100):
                for i in range(k + 1):
                    for j in range(i + 1):
                        for kk, ii, jj in permute_in_place([k, i, j]):
                            # loop over + and - if kk > 0
                            for pmk in sign[0 : kk + 1]:
                                # loop over + and - if ii > 0
                                for pmi in sign[0 : ii + 1]:
                                    # loop over + and - if jj > 0
                                    for pmj in sign[0 : jj + 1]:
                                        if (
                                            self.vx == pmk * kk
                                            and self.vy == pmi * ii
                                            and self.vz == pmj * jj
                                        ):
                                            self.num = count
                                            return
                                        else:
                                            count += 1
'''
gen = '''
def space_velocities():
    """coordinates of the velocities of the space, in the order of their numbers"""
    sign = [1, -1]
    for k in range(100):
        for i in range(k + 1):
            for j in range(i + 1):
                for kk, ii, jj in permute_in_place([k, i, j]):
                    for pmk in sign[0 : kk + 1]:
                        for pmi in sign[0 : ii + 1]:
                            for pmj in sign[0 : jj + 1]:
                                yield pmk * kk, pmi * ii, pmj * jj


class Singleton(type):'''
R(old, '''            for n, (x, y, z) in enumerate(space_velocities()):
                if self.vx == x and self.vy == y and self.vz == z:
                    self.num = n
                    return
''') if 0 else r("R", (S, old, '''            for n, (x, y, z) in enumerate(space_velocities()):
                if self.vx == x and self.vy == y and self.vz == z:
                    self.num = n
                    return
'''), (S, "\nclass Singleton(type):", gen))
R('''        svx = -self.vx
        svy = None if self.vy is None else -self.vy
        svz = None if self.vz is None else -self.vz
''', '''        svx, svy, svz = (None if c is None else -c for c in (self.vx, self.vy, self.vz))
''')
R('''        vectorize = np.vectorize(lambda obj: obj.vx)
        return vectorize(self.unique_velocities)''', '''        return np.array([velocity.vx for velocity in self.unique_velocities])''')
R('''        for k in range(self.nstencils):
            num = self.num[k]
            self.num2index.extend(num)
''', '''        for velocities in self.v:
            for velocity in velocities:
                self.num2index.append(velocity.num)
''')
R('''            self.v.append(self.unique_velocities[ypos])
            size = len(velocities)
            self.nv.append(size)
            self.nv_ptr.append(self.nv_ptr[-1] + size)
        self.nv_ptr = np.asarray(self.nv_ptr)
''', '''            self.v.append(self.unique_velocities[ypos])
            self.nv.append(len(velocities))
        self.nv_ptr = np.concatenate(([0], np.cumsum(self.nv)))
''')
R('''        for v in self.v:
            for vk in v:
                num = vk.get_symmetric(axis).num
                n = np.searchsorted(self.nv_ptr, k, side="right") - 1
''', '''        for n, v in enumerate(self.v):
            for vk in v:
                num = vk.get_symmetric(axis).num
''')
R('''            contains_sym = np.all(
                    np.where(scheme_velocities == v.get_symmetric().num, False, True)
                )
                if contains_sym:''', '''            if v.get_symmetric().num not in scheme_velocities:''')
R('''                contains_sym = np.all(
                    np.where(scheme_velocities == v.get_symmetric().num, False, True)
                )
                if contains_sym:''', '''                if not np.any(scheme_velocities == v.get_symmetric().num):''')
R('''        self.unum2index = -1000 + np.zeros(np.max(unum) + 1, dtype=np.int32)
        self.unum2index[unum] = np.arange(unum.size)
''', '''        self.unum2index = np.full(unum.max() + 1, -1000, dtype=np.int32)
        for index, n in enumerate(unum):
            self.unum2index[n] = index
''')
done()
