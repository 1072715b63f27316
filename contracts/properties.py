"""Which units decide which property, and the known-findings file."""
import importlib
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))

# property -> (contract modules to import, regex over unit names)
PROPS = {
    'P24': (['c_network'], r'^net_'),
    'P23': (['c_handeye'], r'^he_'),
    'P21': (['c_project'], r'^pj_'),
    'P22': (['c_pose2d3d'], r'^pp_'),
    'P20': (['c_align'], r'^(al|tip)_'),
    'P19': (['c_times'], r'^tim_'),
    'P18': (['c_serial'], r'^ser_'),
    'P15': (['c_opt'], r'^opt_'),
    'P16': (['c_ransac'], r'^ran_'),
    'P17': (['c_assign', 'c_cluster'], r'^(asg|clu)_'),
    'P13': (['c_linalg'], r'^la_'),
    'P14': (['c_stats'], r'^stai?_'),
    'P12': (['c_lens'], r'^lens_'),
    'P10': (['c_geometry'], r'^pt_'), 'P11': (['c_geometry'], r'^con_'),
    'P09': (['c_kalman'], r'^kal_'),
    'P08': (['c_tracking', 'c_trackpkf'], r'^trk_'),
    'P07': (['c_function'], r'^jac_'), 'P04': (['c_error'], r'^err_'), 'P05': (['c_error'], r'^errconv_'),
    'P01': (['c_rotation'], r'^rot_'), 'P02': (['c_rotation', 'c_rotcast'], r'^conv_'), 'P03': (['c_rotation'], r'^pose_'), 'P06': (['c_rotation'], r'^interp_'),
}

# properties whose deciding units are mostly bounded stand-ins (never counted as proved)
BOUNDED = {
    'P17': 'bounded stand-in: the contracts of Munkres, k-means and expectation maximisation are evaluated on the real compiled code for '
           'generated inputs against independent oracles (exhaustive minimum over all permutations, nearest mean, likelihood); only the '
           'small units with obligations are discharged symbolically',
}

GLOBAL_ASSUMPTIONS = [
    'double and float arithmetic is interpreted as exact real arithmetic (rounding, overflow and NaN are outside the model)',
    'floating-point literals denote the nearest simple rational or multiple of pi (e.g. 0.1, 1/3, pi/2)',
    'trigonometric and root functions of libm are the mathematical functions (sin^2+cos^2=1, sqrt(x)^2=x, addition theorems)',
    'assertions are compiled out (NDEBUG), as in the shipped build',
    'the entry points in /verif/contracts/*.cpp only copy numbers in and out and call the real code',
]


def load(pid):
    for m in PROPS[pid][0]:
        importlib.import_module(m)


def units_of(pid):
    from unit import UNITS
    rx = re.compile(PROPS[pid][1])
    return [n for n in UNITS if rx.search(n)]


def known_findings(pid):
    p = os.path.join(os.path.dirname(HERE), 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']


def match_known(kf, unit, r, bad):
    for k in kf:
        if k['unit'] != unit:
            continue
        names = [f['name'] for f in r['failed']]
        if names and all(any(re.search(x, n) for x in k['obligations']) for n in names):
            return k['what']
        if not names and bad and any(re.search(x, bad[4]) for x in k['obligations']):
            return k['what']
    return None
