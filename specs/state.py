"""Facts that hold between two steps of the evolution (established by the
constructor and by every update of the cosmological state; see P02)."""


def consistent(params):
    params.T = params.aT / params.a
    params.x = params.a * params.m


def with_kawano(universe):
    from common import utils
    import kawano
    universe.kawano = kawano
    universe.kawano_data = utils.DynamicRecArray(kawano.heading)
    consistent(universe.params)


def with_species(universe, one):
    universe.particles = [one]


def with_rates(universe, table):
    import kawano
    universe.kawano = kawano
    universe.kawano_data = table
    table.columns = [row[0] for row in kawano.heading]
    consistent(universe.params)
