import yaml
import json
import argparse
from typing import Dict
from . import random
from . import util
params = {}
'\nDict: After calling :func:`repast4py.parameters.init_params`, this dictionary\nwill contain the model parameters.\n'

def create_args_parser():
    parser = argparse.ArgumentParser()
    parser.add_argument('parameters_file', help='parameters file (yaml format)')
    parser.add_argument('parameters', nargs='?', default='{}', help='json parameters string')
    return parser

def init_params(parameters_file, parameters, dump_file=None):
    global params
    with open(parameters_file) as f_in:
        params = yaml.load(f_in, Loader=yaml.SafeLoader)
    if parameters != '':
        params.update(json.loads(parameters))
    if 'random.seed' in params:
        random.init(params['random.seed'])
    if dump_file is not None:
        fname = util.find_free_filename(dump_file)
        with open(fname, 'w') as f_out:
            yaml.dump(params, f_out, indent=2, Dumper=yaml.SafeDumper)
    return params
