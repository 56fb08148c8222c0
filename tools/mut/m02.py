from mut import suite
r, done = suite("C02")
S = "simulation.py"
G = "        if self._update_m:\n            self._update_m = False\n            self.f2m()\n"
MH = G + "        return self.container.m[i]\n"
MS = G + "        self.container.m[i] = value\n"
M = G + "\n        return self.container.m._in(i)"
FS = "        self._update_m = True\n        self.container.F[i] = value\n"
r("B", (S, MH, "        return self.container.m[i]\n"))
r("B", (S, MS, "        self.container.m[i] = value\n"))
r("B", (S, MS, "        self.container.m[i] = value\n" + G))
r("B", (S, MS, "        if self._update_m:\n            self.f2m()\n        self.container.m[i] = value\n"))
r("B", (S, M, "        return self.container.m._in(i)"))
r("B", (S, M, G + "\n        return self.container.m[i]"))
r("B", (S, M, G + "\n        return self.container.F._in(i)"))
r("B", (S, FS, "        self.container.F[i] = value\n"))
r("B", (S, FS, "        self._update_m = True\n        self.container.Fnew[i] = value\n"))
r("B", (S, "        self._update_m = True  # we recompute f so m will be not correct\n", ""))
r("B", (S, "        self._update_m = True  # we recompute f so m will be not correct\n", "        self._update_m = not self._update_m\n"))
r("B", (S, "        self._update_m = True\n        self.t = 0.0", "        self._update_m = False\n        self.t = 0.0"))
r("B", (S, "        return self.container.F._in(i)", "        return self.container.Fnew._in(i)"))
r("B", (S, "        return self.container.F[i]\n", "        return self.container.F._in(i)\n"))
r("B", (S, "self.algo.call_function(\"f2m\", self, **kwargs)", "self.algo.call_function(\"m2f\", self, **kwargs)"))
r("B", (S, "self.algo.call_function(\"m2f\", self, m_user, f_user, **kwargs)", "self.algo.call_function(\"m2f\", self, f_user, m_user, **kwargs)"))
r("B", (S, "self.algo.call_function(\"m2f\", self, m_user, f_user, **kwargs)", "self.algo.call_function(\"m2f\", self, m_user, **kwargs)"))
r("B", (S, "self.algo.call_function(\"equilibrium\", self, m_user, **kwargs)", "self.algo.call_function(\"equilibrium\", self, **kwargs)"))
r("B", (S, "        self.container.F, self.container.Fnew = self.container.Fnew, self.container.F\n", "        self.container.F, self.container.Fnew = self.container.Fnew, self.container.F\n        self._update_m = self.nt % 2 == 0\n"))
r("B", (S, MH, "        if self._update_m:\n            self.f2m()\n            self._update_m = False\n        return self.container.m[0]\n"))
r("B", (S, MS, G + "        self.container.m[i] += value\n"))
# same behaviour
r("R", (S, MH, "        if self._update_m:\n            self.f2m()\n            self._update_m = False\n        return self.container.m[i]\n"))
r("R", (S, MH, "        self._refresh()\n        return self.container.m[i]\n"), (S, "    @utils.itemproperty\n    def m(self, i)", "    def _refresh(self):\n        if not self._update_m:\n            return\n        self._update_m = False\n        self.f2m()\n\n    @utils.itemproperty\n    def m(self, i)"), (S, MS, "        self._refresh()\n        self.container.m[i] = value\n"))
r("R", (S, MS, G + "        m = self.container.m\n        m[i] = value\n"))
r("R", (S, FS, "        self.container.F[i] = value\n        self._update_m = True\n"))
r("R", (S, "        self._update_m = True  # we recompute f so m will be not correct\n", ""), (S, "        self.t += self.dt\n        self.nt += 1", "        self.t += self.dt\n        self.nt += 1\n        self._update_m = True\n"))
r("R", (S, "self.algo.call_function(\"m2f\", self, m_user, f_user, **kwargs)", "self.algo.call_function(\"m2f\", self, m_user=m_user, f_user=f_user, **kwargs)"))
r("R", *[(S, "self._update_m", "self._stale")], c=100)
r("R", (S, "        self.algo.call_function(\"f2m\", self, **kwargs)", "        algo = self.algo\n        algo.call_function(\"f2m\", self, **kwargs)"))
r("R", (S, M, G + "\n        inner = self.container.m._in(i)\n        return inner"))
r("R", (S, "        return self.container.F._in(i)", "        f = self.container.F\n        return f._in(i)"))
r("R", (S, "        self.container.Fnew.array[:] = self.container.F.array[:]", "        new, old = self.container.Fnew, self.container.F\n        new.array[:] = old.array[:]"))
done()
