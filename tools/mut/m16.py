from mut import suite
r, done = suite("C16")
H = "hdf5.py"
r("B", (H, "coords[i] = comm.gather(coords[i], root=0)", "coords[i] = np.asarray(comm.gather(coords[i], root=0))"))
r("B", (H, "return ind[::-1], buffer_size[::-1]", "return ind, buffer_size"))
r("B", (H, "return ind[::-1], buffer_size[::-1]", "return ind[::-1], buffer_size"))
r("B", (H, "dset[ind] = data.T", "dset[ind] = data"))
r("B", (H, "self.region[i].insert(0, 0)", "self.region[i].append(0)"))
r("B", (H, "self.region[i][j] += self.region[i][j - 1]", "self.region[i][j] += self.region[i][0]"))
r("B", (H, "range(1, len(self.region[i])):", "range(1, len(self.region[i]) - 1):"))
r("B", (H, "sub[i] = True", "sub[0] = True"))
r("B", (H, "comm.Recv([rcv_buffer, mpi.DOUBLE], source=i, tag=index)", "comm.Recv([rcv_buffer, mpi.DOUBLE], source=i, tag=0)"))
r("B", (H, "for i, data in enumerate(datas):\n                self._set_dset(dset, comm, data, i, with_index=True)", "for i, data in enumerate(datas[::-1]):\n                self._set_dset(dset, comm, data, i, with_index=True)"))
r("B", (H, "ind, buffer_size = self._get_slice(i)", "ind, buffer_size = self._get_slice(0)"))
r("B", (H, "range(1, comm.Get_size())", "range(1, comm.Get_size() - 1)"))
r("B", (H, "            dset[ind] = rcv_buffer", "            dset[ind] = rcv_buffer.T"))
r("B", (H, "self.global_size[::-1] + [3]", "self.global_size + [3]"))
r("B", (H, "name, self.global_size[::-1], dtype", "name, self.global_size, dtype"))
r("B", (H, "dtype=np.double\n            )\n            self._set_dset(dset, comm, data)", "dtype=np.float32\n            )\n            self._set_dset(dset, comm, data)"))
r("B", (H, "[np.ascontiguousarray(data.T, dtype=np.double), mpi.DOUBLE],\n                dest=0,\n                tag=0,", "[data.T, mpi.DOUBLE],\n                dest=0,\n                tag=0,"))
r("B", (H, "[np.ascontiguousarray(data.T, dtype=np.double), mpi.DOUBLE],\n                dest=0,\n                tag=0,", "[np.ascontiguousarray(data), mpi.DOUBLE],\n                dest=0,\n                tag=0,"))
r("B", (H, 'self.scalars[name] = self.h5filename + ":/" + name', 'self.scalars[name] = self.filename + ":/" + name'))
r("B", (H, 'self.global_size[i], self.filename + ".h5", i', 'self.global_size[0], self.filename + ".h5", i'))
r("B", (H, 'k, " ".join(map(str, self.global_size[::-1])), v', 'k, " ".join(map(str, self.global_size)), v'))
r("B", (H, "self.global_size[::-1])), 3, v", "self.global_size[::-1])), self.dim, v"))
r("B", (H, "            self.h5file.close()\n", ""))
r("B", (H, "            self.xdmf_file.close()", "            pass"))
r("B", (H, "        mpi_topo.cartcomm.Barrier()\n", ""))
r("B", (H, "        mpi_topo.cartcomm.Barrier()\n", "        mpi.COMM_WORLD.Barrier()\n"))
r("B", (H, "if mpi_topo.cartcomm.Get_rank() == 0:", "if mpi.COMM_WORLD.Get_rank() == 0:"))
r("B", (H, "if path and not", "if not"))
r("B", (H, "os.path.join(path, self.h5filename)", 'path + "/" + self.h5filename'))
r("B", (H, 'dset[:] = np.concatenate(coords[i])', 'dset[:] = np.concatenate(coords[i][::-1])'))
r("B", (H, '"x_{}".format(i), [self.global_size[i]]', '"x_{}".format(self.dim - 1 - i), [self.global_size[i]]'))
r("B", (H, "data = f(*fargs)", "data = f()"))
r("B", (H, "comm.Free()", "pass"), expect=None) if False else None
r("B", (H, 'prefix = "_{}".format(timestep)', 'prefix = "{}".format(timestep)'))
r("B", (H, '"w")\n\n', '"a")\n\n'))
r("B", (H, "mpi_coords = self.mpi_topo.cartcomm.Get_coords(rank)", "mpi_coords = self.mpi_topo.cartcomm.Get_coords(rank)[::-1]"))
r("B", (H, "rcv_buffer = np.empty(buffer_size)", "rcv_buffer = np.empty(buffer_size, dtype=np.float32)"))
# refactorings
r("R", (H, """        ind, buffer_size = self._get_slice(0)
        ind = tuple(ind)
        if with_index:
            ind = ind + (index,)
        dset[ind] = data.T

        for i in range(1, comm.Get_size()):
            ind, buffer_size = self._get_slice(i)
            # print(i, ind, buffer_size)
            ind = tuple(ind)
            if with_index:
                ind = ind + (index,)
            rcv_buffer = np.empty(buffer_size)
            comm.Recv([rcv_buffer, mpi.DOUBLE], source=i, tag=index)
            dset[ind] = rcv_buffer
""", """        tail = (index,) if with_index else ()
        for rank in range(comm.Get_size()):
            ind, buffer_size = self._get_slice(rank)
            where = tuple(ind) + tail
            if rank == 0:
                dset[where] = np.transpose(data)
                continue
            local = np.empty(buffer_size, dtype=np.double)
            comm.Recv([local, mpi.DOUBLE], source=rank, tag=index)
            dset[where] = local
"""))
r("R", (H, """            for i in range(len(self.region)):
                self.region[i].insert(0, 0)
                for j in range(1, len(self.region[i])):
                    self.region[i][j] += self.region[i][j - 1]
""", """            offsets = []
            for sizes in self.region:
                bounds = [0]
                for n_local in sizes:
                    bounds.append(bounds[-1] + n_local)
                offsets.append(bounds)
            self.region = offsets
"""))
r("R", (H, """            for i in range(len(self.region)):
                self.region[i].insert(0, 0)
                for j in range(1, len(self.region[i])):
                    self.region[i][j] += self.region[i][j - 1]
""", """            self.region = [[0] + list(np.cumsum(reg)) for reg in self.region]
"""))
r("R", (H, """        for i in range(self.dim):
            ind.append(
                slice(self.region[i][mpi_coords[i]], self.region[i][mpi_coords[i] + 1])
            )
            buffer_size.append(
                self.region[i][mpi_coords[i] + 1] - self.region[i][mpi_coords[i]]
            )
        return ind[::-1], buffer_size[::-1]""", """        for i in reversed(range(self.dim)):
            beg, end = self.region[i][mpi_coords[i]], self.region[i][mpi_coords[i] + 1]
            ind.append(slice(beg, end))
            buffer_size.append(end - beg)
        return ind, buffer_size"""))
r("R", (H, "            comm.Free()\n", "            comm.Free()\n            log.debug('axis %d', i)\n"))
r("R", (H, """        if isinstance(f, np.ndarray):
            data = f
        else:
            data = f(*fargs)
""", "        data = f if isinstance(f, np.ndarray) else f(*fargs)\n"))
r("R", (H, """            self.xdmf_file.write("</Geometry>\\n")
""", """            close_geometry = "</Geometry>\\n"
            self.xdmf_file.write(close_geometry)
"""))
r("R", (H, """            for k, v in self.scalars.items():
                self.xdmf_file.write(
                    \"\"\"
                <Attribute Name="{0}" AttributeType="Scalar" Center="Node">
                <DataItem Format="HDF" Dimensions="{1}">
                {2}
                </DataItem>
                </Attribute>
                \"\"\".format(
                        k, " ".join(map(str, self.global_size[::-1])), v
                    )
                )
""", """            shape = " ".join([str(n) for n in self.global_size[::-1]])
            for k, v in self.scalars.items():
                self.xdmf_file.write(f\"\"\"
                <Attribute Name="{k}" AttributeType="Scalar" Center="Node">
                <DataItem Format="HDF" Dimensions="{shape}">
                {v}
                </DataItem>
                </Attribute>
                \"\"\")
"""))
done()
