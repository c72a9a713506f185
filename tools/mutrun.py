"""Run the checks against surviving mutants: python tools/mutrun.py SURV.json OUT.json [parallel] [substring of file or func]
For each, the properties its function bears on are tried in turn (quick tier), stopping at the first violation."""
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import threading
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

RULES = [
    ('WeatherMap', 'C22'), ('get_remote', 'C21'), ('get_circuit', 'C21'), ('get_interface_object_from_nodes', 'C21 C13 C05 C01'), ('get_interface_object', 'C16'), ('get_orphan','C23'), ('is_node','C23'), ('failed_', 'C23'), ('unrouted', 'C23'), ('get_demand_objects', 'C23 C20'), ('weathermap', 'C22'),
    ('_extract_interface', 'C17'), ('load_model_file', 'C17'), ('_from_data', 'C17'), ('find_end_index', 'C17'),
    ('validate_srlg', 'C12 C15'), ('validate_model', 'C15 C21 C12 C11'), ('_multiple_links', 'C15 C20'), ('_unique_interface', 'C15'), ('_validate_circuit', 'C15 C11'),
    ('_make_int_info', 'C15 C21'), ('_reserved_bw', 'C15 C04'), ('_make_circuits', 'C21 C15 C10 C11'), ('get_interface_object_from_nodes', 'C21 C13 C05 C01'),
    ('_determine_lsp', 'C05 C04 C06 C19 C10'), ('routed_lsp', 'C13 C05 C04 C06'), ('_make_weighted', 'C01 C13 C05 C19 C10 C14'),
    ('update_simulation', 'C10 C03 C07 C08'), ('shortcut', 'C08 C18 C10'), ('_inspect_for', 'C08'), ('_insert_lsps', 'C08'), ('_demand_traffic', 'C02 C03 C08'),
    ('_update_interface', 'C03 C02 C08'), ('_update_int', 'C03 C07'), ('add_circuit', 'C16 C21'), ('from_list', 'C16 C21'), ('_make_network', 'C16 C21'),
    ('get_all_paths', 'C14'), ('get_shortest', 'C13 C07'), ('_get_all_paths', 'C01 C02'), ('srlg', 'C12 C18 C16'), ('SRLG', 'C12 C16'),
    ('fail_', 'C11 C12 C10 C04'), ('failed', 'C11 C12 C18 C21'), ('change_interface_name', 'C16'), ('add_', 'C16 C18 C10'), ('get_', 'C16 C23'),
    ('parallel_', 'C20 C10 C06'), ('_route_parallel', 'C06 C05 C04'), ('_optimize', 'C06 C04 C05'), ('_route_lsps', 'C05 C04 C06'), ('_route_demands', 'C01 C07 C08'),
    ('_add_lsp_path', 'C05 C04'), ('simulation_diag', 'C09'), ('Circuit', 'C21'), ('Demand', 'C18 C16 C17'), ('reserv', 'C04 C18'), ('capacity', 'C18'), ('cost', 'C18'),
    ('remote', 'C21'), ('lsps', 'C04 C09'), ('demands', 'C09 C03'), ('_eq__', 'C16 C10'), ('_ne__', 'C16 C10'), ('__hash__', 'C16 C10'), ('Node.__init__', 'C18 C17'),
    ('metric', 'C07 C18'), ('find_rsvp', 'C05 C04 C06'), ('_find_path_cost', 'C05 C06 C04'), ('traffic_on', 'C09'), ('RSVP_LSP.__init__', 'C05 C06 C07 C18'),
    ('setup_bandwidth', 'C06 C18'), ('__init__', 'C16 C10 C23'),
]


def props(m):
    for k, v in RULES:
        if k in m['func'] or (k == 'weathermap' and 'weathermap' in m['file']):
            return v.split()
    return ['C10', 'C16', 'C04', 'C09', 'C03']


def main():
    surv = json.load(open(sys.argv[1]))
    outf = sys.argv[2]
    par = int(sys.argv[3]) if len(sys.argv) > 3 else 4
    flt = sys.argv[4:] or ['']
    done = {}
    if os.path.exists(outf):
        done = {(r['file'], r['a'], r['b'], r['new']): r for r in json.load(open(outf))}
    todo = [m for m in surv if (m['file'], m['a'], m['b'], m['new']) not in done and any(f in m['file'] + ' ' + m['func'] for f in flt)]
    random.Random(5).shuffle(todo)
    q = queue.Queue()
    for m in todo:
        q.put(m)
    res = list(done.values())
    lock = threading.Lock()

    def work(k):
        root = '/tmp/mutrun/%d-%d' % (os.getpid(), k)
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree('/repo', root, ignore=shutil.ignore_patterns('.git'))
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            mutate.apply(m, root)
            m['ran'] = []
            m['verdict'] = 'survived'
            for p in props(m):
                t = time.time()
                env = dict(os.environ, SYMX_REPO=root)
                try:
                    pr = subprocess.run(['./check', p, 'quick', '--no-evidence', '--jobs', '2', '--budget', '300'], cwd=os.environ.get('VERIF', '/verif'), env=env, capture_output=True, text=True, timeout=400)
                    rc, out = pr.returncode, pr.stdout
                except subprocess.TimeoutExpired:
                    rc, out = 'timeout', ''
                m['ran'].append((p, rc, round(time.time() - t, 1)))
                if rc == 1 and 'VIOLATION' in out:
                    m['verdict'] = 'killed ' + p
                    break
            mutate.restore(m, root)
            with lock:
                res.append(m)
                if len(res) % 10 == 0:
                    json.dump(res, open(outf, 'w'))
                    print(len(res), 'of', len(done) + len(todo), 'survived', sum(r['verdict'] == 'survived' for r in res), flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(par)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump(res, open(outf, 'w'))
    [shutil.rmtree('/tmp/mutrun/%d-%d' % (os.getpid(), k), ignore_errors=True) for k in range(par)]


main()
