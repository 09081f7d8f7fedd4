# executed by mkprops.py; CLAIMED maps property -> (technique, level note)
T = 'TLA+ specification model-checked with TLC; recorded executions of the real code validated against it by TLC'
CLAIMED = {
    'C01': (T, 'exhaustive over small programs within bounds plus simulated longer ones'),
    'C02': (T, 'exhaustive over small programs within bounds plus simulated longer ones'),
    'C04': (T, 'exhaustive over small logs and edit sequences within bounds plus seeded larger ones'),
    'C06': (T, 'exhaustive over all logs within bounds plus seeded larger logs'),
    'C07': (T, 'exhaustive over all logs within bounds plus seeded larger logs'),
    'C08': (T, 'exhaustive over all logs within bounds plus seeded larger logs'),
    'C09': (T, 'exhaustive over all traces within bounds plus seeded longer ones'),
    'C10': (T, 'exhaustive over all traces within bounds plus seeded longer ones'),
    'C11': (T, 'exhaustive over all families of class sets within bounds plus seeded logs'),
    'C12': (T, 'exhaustive over all activity families and traces within bounds plus seeded logs'),
    'C13': (T, 'exhaustive over all activity families and traces within bounds plus seeded logs'),
    'C14': (T, 'exhaustive over all activity families and traces within bounds plus seeded logs'),
    'C15': (T, 'exhaustive over all activity families and traces within bounds plus seeded logs'),
    'C03': (T, 'exhaustive over all small logs within bounds plus seeded logs and documents'),
    'C16': (T, 'exhaustive over all short programs of copies and edits, simulated longer ones, all short texts'),
    'C17': (T, 'exhaustive protocol model with interleaved backend, replay of all short message scripts over all small pipelines, seeded deep ones'),
    'C18': (T, 'all part classes with all combinations of up to two (thorough: three) given settings, all small compositions, seeded deep ones'),
    'C19': (T, 'all nets, graphs and coloured logs within small bounds, seeded larger messages with odd names and 64 bit identifiers'),
    'C20': (T, 'all logs with instances within bounds, all sequences of diagrams with nested pipelines up to four (thorough: five), seeded larger executions'),
    'C21': (T, 'all forests within small bounds, all class trees over three classes, seeded larger forests with odd names, discovered forests'),
    'C22': (T, 'all process trees with up to three (thorough: four) leaves and logs of their words, seeded random logs and logs with rare deviations'),
    'C23': (T, 'exhaustive over all small logs and short edit sequences within bounds plus seeded longer ones; the crate compiled without gRPC and BXES'),
    'C24': (T, 'exhaustive over all small logs within bounds plus seeded larger logs'),
    'C25': (T, 'exhaustive over all traces within bounds plus seeded longer ones; merged repeats are bounded from both sides'),
    'C26': (T, 'exhaustive over all logs within bounds plus seeded logs of block-structured processes'),
    'C27': (T, 'exhaustive over all nets with two places and two transitions, plus seeded and discovered nets'),
    'C28': (T, 'all programs of two parts or nests of them with a failing handler, every part without each single thing it needs, seeded trees'),
    'C29': (T, 'all families of up to two class sets over three classes with all traces of length four, caller-given hierarchies, seeded pipelines of parts over several rounds'),
    'C30': (T, 'all small logs and all activity graphs with shared names and children within bounds, seeded larger contexts with sequences of reports, seeded figures'),
    'C31': (T, 'all documents of few elements (attributes, nesting, defaults, unreadable values) with random spellings, seeded large documents and their truncations, logs written and read, payload edits, nets'),
    'C32': (T, 'all graph histories up to three operations after two nodes and seeded long ones; all logs of two classes and two traces or three classes and one, with 96 parameter sets, seeded logs up to eight classes, each possible clustering'),
    'C33': (T, 'all logs of two classes, three traces and two (thorough: three) events with 20 parameter sets; all instance lists over three activities; seeded logs of up to nine traces, nested by abstraction, with all sources, distances and odd tolerances; linfa is a functional stand-in'),
    'C05': (T, 'exhaustive over all logs within bounds plus seeded larger logs'),
}
checks, na = [], []
for p in P:
    i = p['id']
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                       'technique': t, 'level': 'model_checking', 'level_note': n, 'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': 'machinery not built yet'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+/TLC. See DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
