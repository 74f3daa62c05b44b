import numpy


# ---- history table with named columns -----------------------------------------------
def rec_init(columns):
    names = [c[0] for c in columns]
    return names, [c[1] for c in columns], numpy.array([c[2] for c in columns]), 0


def rec_of(columns, rec):
    if isinstance(rec, dict):
        return tuple(rec[c] for c in columns)
    return rec


def rec_getitem(self, index):
    if index in self.columns:
        return self._data[index][:self.length]
    return self._data[:self.length][int(index)]


def getitem(self, index):
    return self._data[:self.length][index]


def data(self):
    return self._data[:self.length]


def length(self):
    return self.length


def extend(self, rows):
    for r in rows:
        self.append(r)


def row_repr(self, index):
    row = self._data[:self.length][index]
    return '\t'.join(['{:e}'.format(row[n] / u) for n, u in zip(self.columns, self.units)])


def row_repr_names(self, index, names=True):
    row = self._data[:self.length][index]
    return '\t'.join(['{} = {:.2e}'.format(n, row[n] / u) + (' ' + un if un else '')
                      for n, un, u in zip(self.columns, self.unit_names, self.units)])


def rows(a):
    return len(a)
