"""What a run leaves on disk."""
import os
import sys
import time
from common import UNITS, utils


def evolve(self, T_final, export=True, init_time=True):
    if init_time:
        self.params.init_time(self.total_energy_density())
    if self.params.rho is None:
        self.params.update(self.total_energy_density(), self.total_entropy())
    self.save_params()
    while self.params.T > T_final:
        self.make_step()
        self.save()
        self.step += 1
        if self.folder and self.step % self.export_freq == 0:
            self.data.savetxt(open(os.path.join(self.folder, "evolution.txt"), "wb"))
            if self.kawano:
                self.kawano_data.savetxt(open(os.path.join(self.folder, "kawano.txt"), "wb"))
    if not self.params.T > 0:
        sys.exit(1)
    if export:
        self.export()
    return self.data


def export(self):
    if self.folder:
        if self.kawano:
            self.kawano_log.close()
            self.kawano.run(self.folder)
            self.kawano_data.savetxt(open(os.path.join(self.folder, "kawano.txt"), "wb"))
        self.data.savetxt(open(os.path.join(self.folder, "evolution.txt"), "wb"))


def init_kawano(self, datafile='s4.dat', **kwargs):
    import kawano
    kawano.init_kawano(**kwargs)
    if self.folder:
        self.kawano_log = open(os.path.join(self.folder, datafile), 'w')
        self.kawano_log.write("\t".join(row[0] for row in kawano.heading) + "\n")


def kawano_state(code, self, electron, neutrino):
    import kawano
    self.init_kawano(electron=electron, neutrino=neutrino)
    t = self.kawano_data
    return (self.kawano.T_kawano, t.columns, t.unit_names, list(t.units), t.length,
            kawano.particles.electron, kawano.particles.neutrino)


def kawano_state_required(code, self, electron, neutrino):
    import kawano
    return (kawano.T_kawano, [row[0] for row in kawano.heading], [row[1] for row in kawano.heading],
            [row[2] for row in kawano.heading], 0, electron, neutrino)


# ---- construction ---------------------------------------------------------------
def observe(u):
    return (u.particles, u.interactions, u.data.columns, u.data.unit_names, list(u.data.units), u.data.length,
            u.folder, u.fraction, u.step, u.kawano, u.kawano_log, u.oscillations, u.step_monitor)


def built(folder, params):
    from evolution import Universe
    u = Universe(folder=folder, params=params)
    return observe(u) + (u.params,)


def observe_required(folder):
    return ([], [], ['aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'fraction', 'S'],
            ['MeV', 'MeV', None, 'MeV', 's', 'MeV^4', None, None, 'MeV^3'],
            [UNITS.MeV, UNITS.MeV, 1, UNITS.MeV, UNITS.s, UNITS.MeV**4, 1, 1, UNITS.MeV**3], 0,
            folder, 0, 1, None, None, None, None)


def built_required(folder, params):
    return observe_required(folder) + (params,)


def second(params, other, species, interactions, monitor, electron, neutrino, pattern):
    """a universe built after another one has been set up and used"""
    from evolution import Universe
    v = Universe(params=other)
    v.particles += species
    v.interactions += interactions
    v.particles.append(electron)
    v.interactions.append(neutrino)
    v.step_monitor = monitor
    v.data.length = 7
    v.fraction = pattern
    v.step = 3
    v.folder = pattern
    u = Universe(params=params)
    return observe(u) + (u.params,)


def second_required(params, other, species, interactions, monitor, electron, neutrino, pattern):
    return observe_required(None) + (params,)


def with_kawano(self):
    import kawano
    self.kawano = kawano


def without_kawano(self):
    self.kawano = None


# ---- tables as text ---------------------------------------------------------------
def rec_savetxt(self, f):
    import numpy
    names = [n + (', ' + u if u else '') for n, u in zip(self.columns, self.unit_names)]
    rows = self._data[:self.length].view((numpy.float_, len(self._data.dtype)))
    numpy.savetxt(f, rows / self.units[None, :], delimiter='\t', header='\t'.join(names))


def array_savetxt(self, f):
    import numpy
    numpy.savetxt(f, self.data, delimiter='\t', header='\t'.join('{:e}'.format(h) for h in self.header))


# ---- table of a species ---------------------------------------------------------------
def species_table(grid):
    import particles
    p = particles.Particle(name='one', grid=grid)
    t = p.data['params']
    return t.columns, t.unit_names, list(t.units), t.length


def species_table_required(grid):
    return ['a', 't', 'T', 'density', 'energy_density'], ['', 's', 'MeV', 'MeV^3', 'MeV^4'], [1, UNITS.s, UNITS.MeV, UNITS.MeV**3, UNITS.MeV**4], 0


def kawano_units():
    import kawano
    return [(row[1], row[2]) for row in kawano.heading]


def kawano_units_required():
    labels = ['s', 'MeV', '10^9K', '10^9K/s', 'g/cm^3', '1/s'] + ['dimensionless'] * 6
    units = [UNITS.s, UNITS.MeV, UNITS.K9, UNITS.K9 / UNITS.s, UNITS.g_cm3, 1 / UNITS.s] + [1] * 6
    return list(zip(labels, units))
