#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
CONF = 'Quint specification; spec-generated scenarios replayed into the code, recorded traces checked against the spec'
ALG = ('Every recorded result is compared, inside Quint, with the value computed by the specification in 18-digit fixed '
       'point. Exploration: the instants and places are sampled by the scenario machine, not enumerated. Trusts the '
       'harness, Quint\'s evaluator and the transcription of the published algorithm.')
CHECKS = {
    'C01': (CONF, 'exploration', ALG), 'C02': (CONF, 'exploration', ALG),
    'C03': (CONF, 'exploration', ALG), 'C04': (CONF, 'exploration', ALG),
}
REL = ('Observations that must agree are compared inside Quint (conf_rel), without an oracle of their value. Exploration over '
       'spec-generated requests; trusts the harness and Quint\'s evaluator.')
for _p in ('C05', 'C06', 'C07', 'C08', 'C09'):
    CHECKS[_p] = (CONF, 'exploration', REL)
CHECKS['C10'] = (CONF + '; request machine checked exhaustively with TLC', 'model_checking',
                 'Every class of request of the machine (use case, algorithm, engine, dimensions, sizes, coordinate values, form) is '
                 'a state enumerated by TLC on every run; the replay takes all names, sizes and values and a random walk over them. Outcomes judged in Quint.')
RANGE = ('Values observed at spec-generated instants and places are held against the ranges inside Quint. Trusts the harness and '
         'Quint\'s evaluator; sampled, not exhaustive.')
for _p in ('C11', 'C12', 'C13'):
    CHECKS[_p] = (CONF, 'exploration', RANGE)
CHECKS['C14'] = (CONF, 'exploration', REL)
DER = ('Each derived variable is recomputed in Quint (spec/derived.qnt) from the position of the sun in the same result. '
       'Exploration over spec-generated requests; trusts the harness and Quint\'s evaluator.')
for _p in ('C15', 'C16', 'C17', 'C18', 'C19', 'C20'):
    CHECKS[_p] = (CONF, 'exploration', DER)
FUN = ('The state machine of the caller is checked exhaustively in the small by TLC; its behaviours are executed on the code and the '
       'recorded trace is validated in Quint, where every read must be a function of its arguments. ')
CHECKS['C21'] = (CONF + ', recorded sessions validated against the state machine', 'exploration', FUN + 'Sessions are sampled.')
CHECKS['C22'] = (CONF + ', schedules executed line by line', 'exploration', FUN + 'Schedules are sampled at the granularity of source '
                 'lines of the library; what happens inside numpy, numexpr, pandas and xarray is not scheduled.')
LAW = ('A numeric law that the specified algorithms satisfy in the behaviours generated (an invariant of spec/motion.qnt), evaluated in '
       'Quint on what the code gives in the same behaviours. Sampled; trusts the harness and Quint\'s evaluator.')
CHECKS['C26'] = CHECKS['C27'] = (CONF, 'exploration', LAW)
CHECKS['C23'] = (CONF, 'exploration', DER)
CHECKS['C24'] = (CONF, 'exploration', 'Command lines generated by the specification are executed; every printed number is held in Quint '
                 'against the rounding of what the library returns. Sampled; trusts the harness and Quint\'s evaluator.')
CHECKS['C25'] = (CONF, 'exploration', 'Requests, replies and histories of loads generated by the specification are executed with a stand-in '
                 'for the network that also fails; sampled. The parquet library, absent here, is replaced by another store.')
CHECKS['C28'] = (CONF, 'exploration', LAW.replace('motion', 'horizon'))
CHECKS['C29'] = (CONF, 'exploration', REL + ' All pairs of ways of writing latitude and longitude are visited; the values are sampled.')
CHECKS['C30'] = (CONF + ', recorded lives of processes validated against the state machine', 'exploration',
                 'Behaviours of the machine are lived by real processes; the settings seen after every operation, and the answers, are '
                 'judged in Quint. Lives are sampled; settings that are not listed in the specification are not looked at.')
CHECKS['C31'] = (CONF, 'exploration', 'Charts generated by the specification are drawn; lines are compared at 6 of their points (thorough: 14), '
                 'labels all of them, with positions computed in Quint. Sampled; trusts the harness and Quint\'s evaluator.')
CHECKS['C32'] = (CONF, 'exploration', 'Tables generated by the specification are scored by the code, and in Quint. Packages that are not installed '
                 '(soltrack, sg2, pysparta) are replaced by stand-ins, the clear-sky model by a linear one. Sampled.')
CHECKS['C33'] = (CONF + ', recorded lives of results validated against the state machine', 'exploration',
                 'Behaviours of the machine (holders, heaps) are executed on the code, some in another process; every read is held in Quint '
                 'against that of a result made for it. Sampled.')
CHECKS['C34'] = (CONF + ', recorded histories validated against the state machine', 'exploration',
                 'Histories generated by the specification are run with stand-ins for the network, the other packages and the clear-sky model; '
                 'what is asked and printed is computed in Quint. Sampled; figures are compared as printed, to thousandths.')
CHECKS['C35'] = ('Quint specification of the protocol, model-checked by TLC; recorded histories of interrupted processes validated against it', 'exploration',
                 'The protocol is checked exhaustively for three months and three deaths; on the code, processes die at each line and return that a load '
                 'executes (its first, middle and last time). Not within a system call; the disk is taken to keep what was written. The parquet library, '
                 'absent here, is replaced by another store.')
CHECKS['C36'] = (CONF + ', meaning of calls model-checked by TLC', 'exploration',
                 'What every call of up to six arguments means is checked exhaustively (however it is said); calls of behaviours of the machine are made, '
                 'each against the call that says all of it. Few values of each argument. The time of `at` left out (now) is of C24.')
CHECKS['C37'] = ('Quint specification of the protocol, model-checked by TLC; executions of the code under generated schedules validated against it', 'exploration',
                 'The protocol is checked exhaustively for three loads, two months (thorough: three), and two faults; on the code, loads switch at lines of the '
                 'library and of the stand-in for the parquet library (absent here), in threads that the library takes for processes. Sampled schedules.')
CHECKS['C38'] = ('Quint specification of the store, model-checked by TLC; recorded calls and histories validated against it', 'exploration',
                 'The store of tables is checked exhaustively for three methods and six events; on the code, the packages, the clock and the parquet library '
                 'are stand-ins (the clock goes on only while a package is called), and calls and figures are held against the specification. Sampled. '
                 'For pvlib, 100 places and a grid of 10 x 10 are not told apart in the tables.')
CHECKS['C39'] = ('tables drawn by a Quint specification, plotted; the figures validated against it', 'exploration',
                 'What is drawn is read from the figures that matplotlib makes without a screen: panels, names, numbers in cells, and of the curves of '
                 'densities their mean and deviation (1e-2 decades, 2 %). Sampled. Saving is replaced by a record of the name.')
NA = {}


def main():
    props = [json.loads(x) for x in (ROOT / 'properties.jsonl').read_text().splitlines()]
    m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
    for p in props:
        i = p['id']
        if i in CHECKS:
            t, lv, note = CHECKS[i]
            m['checks'].append(dict(property=i, quick_cmd=f'python3 check.py {i}',
                                    thorough_cmd=f'VERIF_TIER=thorough python3 check.py {i}',
                                    technique=t, level=lv, level_note=note))
        else:
            m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check under construction')))
    (ROOT / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')


main()
