"""writes MANIFEST.json and known_findings.json (run by hand, not by checks)"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    'C01': "reference-model monitor on conversion traces",
    'C02': "stateful trace monitor over conversion histories",
    'C03': "refusal monitor over enumerated name/unit combinations",
    'C04': "range-guard monitor at both sides of every range end",
    'C05': "reference-model monitor of interpolation",
    'C06': "reference-model monitor (published formulas, Kramers-Kronig)",
    'C07': "metamorphic monitor batch vs point evaluations",
    'C08': "invariant monitor eps = (n+ik)^2 and passivity",
    'C09': "state-snapshot monitor around queries, threads with forced "
           "switches",
    'C10': "refusal/acceptance monitor over source combinations",
    'C11': "reference-model monitor of alpha tables",
    'C12': "range monitor probing evaluations around reported bounds",
    'C13': "before/after trace monitor of extrapolation",
    'C14': "before/after trace monitor of remove_absorption",
    'C15': "residual monitor of the mixing equations",
    'C16': "write/read round-trip monitor against reference data",
    'C17': "metadata round-trip monitor over repeated cycles",
    'C18': "reference-model monitor over grammar-generated files",
    'C19': "fault-injection monitor over defective files",
    'C20': "reference-model monitor of catalogue builds over generated trees",
    'C21': "persistence monitor over save/reopen/rebuild histories",
    'C22': "online model monitor over alias operation histories",
    'C23': "file-system snapshot monitor over configurations and processes",
    'C24': "scripted-dialogue monitor with prompt and file-system trace",
    'C25': "artist-inspection monitor of drawn axes",
    'C26': "equality-relation monitor (symmetry, reflexivity, totality)",
    'C27': "online model monitor over interactive histories (grid stand-in)",
    'C28': "output-capture monitor",
    'C29': "interference monitor: caller-owned data overwritten between "
           "queries",
}
NOTE = ("Exploration: the real package from /repo's working tree is driven "
        "with generated (seeded) hostile workloads and every observation is "
        "judged by an oracle that shares no code with the package; holds for "
        "what was executed (counts in the evidence file). Trusts numpy/scipy, "
        "the interpreter and the reference model in mon/. Assumptions and "
        "scoped-out inputs: DESIGN.md.")

FIXED = {
    '82b17dd': 'C01', '0b0e65d': 'C01', 'a45c4d5': 'C01', '46d559c': 'C01',
    '50dd915': 'C04', '524121c': 'C04', '537adad': 'C09', 'f0edab3': 'C09',
    'a0fd252': 'C06', '1a40f7a': 'C06', 'e9005b2': 'C07', '2e84f58': 'C06',
    '0907c9a': 'C06', 'd7ecb5c': 'C16', '364b0e1': 'C16', '2c47241': 'C16',
    '6b51e9f': 'C18', 'dabf41f': 'C16', 'e649e83': 'C16', '811c9ae': 'C16',
    'a2d847f': 'C16', 'fbed812': 'C19', '3360e62': 'C11', '5fb6062': 'C05',
    '1b4c260': 'C12', '18410fb': 'C12', 'cd009f8': 'C12', '0ebdd57': 'C26',
    'ba16a70': 'C09', 'fd17396': 'C15', '345b8cd': 'C15', '91095a2': 'C26',
    '5100608': 'C25', '0196f19': 'C16', 'ded3acd': 'C17', '82dbad7': 'C16',
    'efbe617': 'C17', 'ab736dd': 'C23', '6061993': 'C18', '3e77c3d': 'C20',
    '8d77352': 'C22', '7ce0f5d': 'C22', 'e116a0e': 'C22', '7532594': 'C20',
    '3dc3911': 'C23', '337633b': 'C23', '825d7db': 'C23', '0c66f3a': 'C24',
    '0bec3c7': 'C25', '3a844a0': 'C12', '8775659': 'C13', '3ae84be': 'C18', 'ab501c4': 'C19',
    '186f59d': 'C29', '0827f0c': 'C29', '9ec6e22': 'C03', '7040aa2': 'C16',
    '9adff09': 'C18', '0cd8485': 'C17', '4ad1a14': 'C03', '07b3d45': 'C04',
    '3417c49': 'C18', '0e1398c': 'C18', '01ef650': 'C04', '6387c3b': 'C17', '67149c7': 'C12', '7092473': 'C19', 'a8335bc': 'C19',
    '10e4a8d': 'C19', '3fadc33': 'C16', 'f06e9a8': 'C29',
    '18f01c9': 'C29', '8e68e8b': 'C17', '5bc675c': 'C13', '37adcbd': 'C24',
    '2fb16a8': 'C22', '1fdfb05': 'C20', 'e185bc2': 'C04', 'c07bd61': 'C17',
    '38330fd': 'C24', '58f30a9': 'C19', '4a620a6': 'C16', '4ad234e': 'C06', '0b2ae29': 'C16', '551bd81': 'C16',
    'a2c7585': 'C20', 'a512ca2': 'C20', 'c27ed18': 'C07', 'e77d29d': 'C16', 'db7a8d0': 'C13', 'afcfe2e': 'C18', 'ab6dcfb': 'C22',
}


def main():
    props = []
    with open(os.path.join(HERE, 'properties.jsonl')) as fpt:
        for line in fpt:
            props.append(json.loads(line)['id'])
    checks, missing = [], []
    for prop in props:
        if not os.path.isfile(os.path.join(HERE, 'mon', 'props',
                                           prop.lower() + '.py')):
            missing.append({'property': prop,
                            'reason': 'check not built yet'})
            continue
        checks.append({
            'property': prop,
            'quick_cmd': './check.sh {} --tier quick'.format(prop),
            'thorough_cmd': './check.sh {} --tier thorough'.format(prop),
            'technique': 'runtime monitoring: ' + TECH[prop],
            'level': 'exploration', 'level_note': NOTE})
    out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': missing,
           'notes': 'No hooks in /repo: all monitors sit at the public '
                    'interface. known_findings.json lists repaired defects.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fpt:
        json.dump(out, fpt, indent=1)
        fpt.write("\n")
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse',
                          '--format=%h %s', '4587076..HEAD'], check=True,
                         capture_output=True, text=True).stdout
    fixed = []
    for line in log.splitlines():
        commit, _, subject = line.partition(' ')
        if not subject.startswith('fix:'):
            raise SystemExit('not a fix: ' + line)
        fixed.append("fixed: property={} {} {}".format(
            FIXED[commit[:7]], commit, subject[4:].strip()))
    path = os.path.join(HERE, 'known_findings.json')
    findings = []
    if os.path.isfile(path):
        with open(path) as fpt:
            findings = json.load(fpt).get('findings', [])
    with open(path, 'w') as fpt:
        json.dump({'findings': findings, 'fixed': fixed}, fpt, indent=1)
        fpt.write("\n")
    print(len(checks), 'checks', len(missing), 'missing', len(fixed), 'fixed')


if __name__ == '__main__':
    main()
