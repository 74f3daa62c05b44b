"""Semi-analytic estimates: neutron freeze-out and the helium fraction."""
import copy
import math
from common import UNITS


def step_monitor(u):
    if not hasattr(u, 'neutron_decoupling_parameters') and len(u.kawano_data):
        last = u.kawano_data[-1]
        c = u.kawano_data.columns[-6:]
        # neutron -> proton over proton -> neutron
        balance = (last[c[0]] + last[c[2]] + last[c[4]]) / (last[c[1]] + last[c[3]] + last[c[5]])
        if not (0.1 <= balance <= 10):
            u.neutron_decoupling_parameters = copy.deepcopy(u.params)
    if not hasattr(u, 'deuterium_generation_parameters'):
        if u.params.T <= 0.065 * UNITS.MeV:
            u.deuterium_generation_parameters = copy.deepcopy(u.params)
    if hasattr(u, 'neutron_decoupling_parameters') and hasattr(u, 'deuterium_generation_parameters') and not hasattr(u, 'BBN_estimates'):
        n, d = u.neutron_decoupling_parameters, u.deuterium_generation_parameters
        wait = d.t - n.t
        ratio = math.exp(-u.kawano.q / n.T - wait / (885.7 * UNITS.s))
        u.BBN_estimates = (wait, ratio, 2 * ratio / (1 + ratio))


def from_table(u):
    step_monitor(u)
