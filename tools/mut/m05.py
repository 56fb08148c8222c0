from mut import suite
r, done = suite("C05")
S = "storage.py"
r("B", (S, "        self.recv_tag = [1, 0, 3, 2, 5, 4]", "        self.recv_tag = [0, 1, 2, 3, 4, 5]"))
r("B", (S, "            sstart[d + 1] = nspace[d] - 2 * vmax[d]", "            sstart[d + 1] = nspace[d] - vmax[d] - 1"))
r("B", (S, "            rstart[d + 1] = nspace[d] - vmax[d]", "            rstart[d + 1] = nspace[d] - vmax[0]"))
r("B", (S, "            sstart[d + 1] = vmax[d]\n", "            sstart[d + 1] = 1\n"))
r("B", (S, "                mpi.Request.Waitall(req)", "                mpi.Request.Waitall(req[:2])"))
r("B", (S, "                mpi.Request.Waitall(req)", "                mpi.Request.Waitall(req[2:])"))
r("B", (S, "                mpi.Request.Waitall(req)", "            mpi.Request.Waitall(req)"))
r("B", (S, "                req = []\n\n", ""), (S, "            for d in range(self.dim):  # pylint: disable=invalid-name\n                req", "            req = []\n            for d in range(self.dim):  # pylint: disable=invalid-name\n                req"), (S, "                mpi.Request.Waitall(req)", "            mpi.Request.Waitall(req)"))
r("B", (S, "            send.Commit()\n", ""))
r("B", (S, "            direction[i] += 1\n", "            direction[i] += 2\n"))
r("B", (S, "            direction = copy.copy(coords)\n            direction[i] += 1", "            direction[i] += 1"))
r("B", (S, "                        source=self.neighbors[2 * d],", "                        source=self.neighbors[2 * d + 1],"))
r("B", (S, "                        dest=self.neighbors[2 * d],", "                        dest=self.neighbors[0],"))
r("B", (S, "            rstart = swap(rstart)\n\n            self.send_type.append(mpi.DOUBLE.Create_subarray(sizes, subsizes, sstart))", "            self.send_type.append(mpi.DOUBLE.Create_subarray(sizes, subsizes, sstart))"))
r("B", (S, "                array_out[self.index[i]] = array_in[i]", "                array_out[i] = array_in[self.index[i]]"))
r("B", (S, "            for d in range(self.dim):  # pylint: disable=invalid-name\n                req", "            for d in range(1, self.dim):  # pylint: disable=invalid-name\n                req"))
r("B", (S, "mpi.DOUBLE.Create_subarray(sizes, subsizes, rstart)", "mpi.FLOAT.Create_subarray(sizes, subsizes, rstart)"))
r("B", (S, "            subsizes[d + 1] = vmax[d]\n", "            subsizes[d + 1] = max(vmax)\n"))
# same behaviour
r("R", (S, "                array_out[self.index[i]] = array_in[i]\n            return array_out", "                array_out[self.index[i]] = array_in[i]\n            return list(array_out)"))
EX = open("/repo/pylbm/storage.py").read()
a = EX.index("            for d in range(self.dim):  # pylint: disable=invalid-name\n                req"); b = EX.index("    # pylint: disable=too-many-locals\n    def generate")
LOOP = EX[a:b]
r("R", (S, LOOP, '''            for d in range(self.dim):
                requests = []
                for side in (0, 1):
                    k = 2 * d + side
                    requests.append(self.comm.Irecv([self.array, self.recv_type[k]], source=self.neighbors[k], tag=self.recv_tag[k]))
                for side in (0, 1):
                    k = 2 * d + side
                    requests.append(self.comm.Isend([self.array, self.send_type[k]], dest=self.neighbors[k], tag=self.send_tag[k]))
                mpi.Request.Waitall(requests)

'''))
r("R", (S, LOOP, '''            for d in range(self.dim):
                mpi.Request.Waitall(self._post(2 * d) + self._post(2 * d + 1))

    def _post(self, k):
        peer = self.neighbors[k]
        return [
            self.comm.Irecv([self.array, self.recv_type[k]], source=peer, tag=self.recv_tag[k]),
            self.comm.Isend([self.array, self.send_type[k]], dest=peer, tag=self.send_tag[k]),
        ]

'''))
r("R", (S, LOOP, '''            for d in range(self.dim):
                req = [self.comm.Irecv([self.array, t], source=n, tag=g) for t, n, g in list(zip(self.recv_type, self.neighbors, self.recv_tag))[2 * d:2 * d + 2]]
                req += [self.comm.Isend([self.array, t], dest=n, tag=g) for t, n, g in list(zip(self.send_type, self.neighbors, self.send_tag))[2 * d:2 * d + 2]]
                for q in req:
                    q.Wait()

'''))
r("R", (S, LOOP, '''            d = 0
            while d < self.dim:
                sends = []
                recvs = []
                for k in range(2 * d, 2 * d + 2):
                    recvs.append(self.comm.Irecv([self.array, self.recv_type[k]], self.neighbors[k], self.recv_tag[k]))
                    sends.append(self.comm.Isend([self.array, self.send_type[k]], self.neighbors[k], self.send_tag[k]))
                mpi.Request.Waitall(recvs)
                mpi.Request.Waitall(sends)
                d += 1

'''))
r("R", (S, "            for d in range(self.dim):  # pylint: disable=invalid-name\n                req", "            for d in reversed(range(self.dim)):  # pylint: disable=invalid-name\n                req"))
NB = EX[EX.index("        self.neighbors = []\n"):EX.index("        self.send_tag = [0")]
r("R", (S, NB, '''        self.neighbors = []
        for i in range(dim):
            for step in (-1, 1):
                direction = list(coords)
                direction[i] += step
                self.neighbors.append(self.mpi_topo.cartcomm.Get_cart_rank(direction))

'''))
r("R", (S, NB, '''        self.neighbors = []
        for i in range(dim):
            low, high = self.mpi_topo.cartcomm.Shift(i, 1)
            self.neighbors.extend([low, high])

'''))
r("R", (S, "        self.send_tag = [0, 1, 2, 3, 4, 5]\n        self.recv_tag = [1, 0, 3, 2, 5, 4]\n", "        self.send_tag = list(range(2 * dim))\n        self.recv_tag = [k + 1 if k % 2 == 0 else k - 1 for k in self.send_tag]\n"))
r("R", (S, "        for send, recv in zip(self.send_type, self.recv_type):\n            send.Commit()\n            recv.Commit()\n", "        for datatype in self.send_type + self.recv_type:\n            datatype.Commit()\n"))
SUB = EX[EX.index("        for d in range(dim):  # pylint: disable=invalid-name\n            subsizes"):EX.index("        for send, recv in zip(")]
r("R", (S, SUB, '''        def layer(d, start):
            sub = [nv] + nspace
            sub[d + 1] = vmax[d]
            beg = [0] * (dim + 1)
            beg[d + 1] = start
            return mpi.DOUBLE.Create_subarray(sizes, swap(sub), swap(beg))

        for d in range(dim):
            n, v = nspace[d], vmax[d]
            for s, e in ((v, 0), (n - 2 * v, n - v)):
                self.send_type.append(layer(d, s))
                self.recv_type.append(layer(d, e))

'''))
done()
