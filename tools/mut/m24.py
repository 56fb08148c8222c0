from mut import suite
r, done = suite("C24")
A = "algorithm/base.py"
PL = "algorithm/pull.py"
T = "algorithm/transform.py"
O = "algorithm/ode.py"
S = "scheme.py"
r("B", (O, "dt / 2 * rhs", "dt * rhs"))
r("B", (O, "lhs + dt / 2 * rhs", "lhs - dt / 2 * rhs"))
SRC = "        if self.source_eq:\n            code.append(self.source_term_local(m))\n\n        code.append(self.m2f"
r("B", (A, SRC, "        code.append(self.m2f"))
r("B", (PL, SRC, "        code.append(self.m2f"))
SRC1 = "        if self.source_eq:\n            code.append(self.source_term_local(m))\n\n        code.append(self.relax"
r("B", (A, SRC1, "        code.append(self.relax"))
r("B", (PL, SRC1, "        code.append(self.relax"))
r("B", (PL, SRC1, "        if self.source_eq and not self.settings.get('split'):\n            code.append(self.source_term_local(m))\n\n        code.append(self.relax"))
r("B", (A, "rhs_eq[lhs.i] = symb", "rhs_eq[lhs.i] = dummy.rhs"))
r("B", (A, "rhs_eq[lhs.i] = symb", "rhs_eq[0] = symb"))
r("B", (A, "rhs = recursive_sub(v, to_subs)", "rhs = v"))
r("B", (A, "for source in scheme._source_terms:", "for source in scheme._source_terms[:1]:"))
r("B", (A, "            if source:\n                for k, v in source.items():", "            if source:\n                for k, v in list(source.items())[:1]:"))
r("B", (A, "        local_vars.extend(self.source_symb)\n", ""))
r("B", (A, "\"local_vars\": list(self.source_symb),", ""))
r("B", (A, "indices.append(m[0].indices[sorder])", "indices.append(m[0].indices[i + 1 if self.sorder[0] == 0 else i])"))
r("B", (A, "                \"sorder\": self.sorder,\n                \"default_index\": indices,", "                \"sorder\": None,\n                \"default_index\": indices,"))
r("B", (A, "                \"sorder\": None,\n                \"default_index\": [0],", "                \"sorder\": None,\n                \"default_index\": [1],"))
r("B", (A, "        space_index = self._get_space_idx_inner()\n        m = self._get_indexed_on_range(\"m\", space_index)\n        return {\n            \"code\": For(space_index, self.source", "        space_index = self._get_space_idx_full()\n        m = self._get_indexed_on_range(\"m\", space_index)\n        return {\n            \"code\": For(space_index, self.source"))
r("B", (T, "default_index = [local_dict[\"consm\"][token[1]]]", "default_index = [0]"))
r("B", (T, "        token = tokens[l]\n        nextTok", "        token = tokens[max(l, 1)]\n        nextTok"))
r("B", (S, "self._source_terms = [s.get(\"source_terms\", None) for s in scheme]", "self._source_terms = [s.get(\"source_terms\", None) for s in scheme if 'source_terms' in s][::-1]"))
r("B", (S, "self._source_terms = [s.get(\"source_terms\", None) for s in scheme]", "self._source_terms = [scheme[0].get(\"source_terms\", None) for s in scheme]"))
r("B", (A, "if isinstance(rhs, (float, int)):\n                rhs_m = rhs\n", "if isinstance(rhs, (float, int)):\n                rhs_m = 2 * rhs\n"))
# the same, written otherwise
r("R", (O, "    dt = sp.Symbol(\"dt\")\n    return Eq(lhs, lhs + dt / 2 * rhs)", "    half = sp.Symbol(\"dt\") / 2\n    return Eq(lhs, half * rhs + lhs)"))
r("R", (A, "        rhs_eq = [mm for mm in m]\n", "        rhs_eq = list(m)\n"))
r("R", (A, "            if indices:\n                code.append(Eq(symb, dummy.rhs.subs(ind_to_subs)))\n            else:\n                code.append(Eq(symb, dummy.rhs))\n", "            value = dummy.rhs.subs(ind_to_subs) if indices else dummy.rhs\n            code.append(Eq(symb, value))\n"))
r("R", (A, "        for source in scheme._source_terms:\n            if source:\n                for k, v in source.items():\n", "        for source in filter(None, scheme._source_terms):\n            if True:\n                for k, v in source.items():\n"))
r("R", (A, "            for i, ind in enumerate(indices):\n                local_dict[indices_str[i]] = ind\n", "            local_dict.update(zip(indices_str, indices))\n"))
r("R", (T, "                    if isinstance(index, sp.Idx):\n                        result.append((NAME, \"%s\" % index))\n                    else:\n                        result.append((NUMBER, \"%s\" % index))\n", "                    kind = NAME if isinstance(index, sp.Idx) else NUMBER\n                    result.append((kind, str(index)))\n"))
r("R", (T, "    for s in expr.atoms(sp.Symbol):\n        local_dict[s.name] = s\n", "    local_dict.update({s.name: s for s in expr.atoms(sp.Symbol)})\n"))
r("R", (T, "        expr.__str__(), local_dict", "        str(expr), local_dict"))
r("R", (T, "    while l < len(tokens):\n        result.append(tokens[l])\n        l += 1\n    return result", "    return result + tokens[l:]"))
r("R", (A, "                    if isinstance(v, (float, int)):\n                        rhs = v\n                    else:\n                        rhs = recursive_sub(v, to_subs)\n", "                    rhs = v if isinstance(v, (float, int)) else recursive_sub(v, to_subs)\n"))
r("R", (S, "self._source_terms = [s.get(\"source_terms\", None) for s in scheme]", "self._source_terms = []\n        for s in scheme:\n            self._source_terms.append(s.get(\"source_terms\"))"))
done()
