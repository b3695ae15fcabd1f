#!/usr/bin/env python3
"""automut2.py SEED N [FILE-substring…]: random one-line changes of the files outside the core's update loop; the quick checks
listed for the file are run until one reports a violation."""
import os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + '/tools/automut.py').read().split('def main')[0])
U, I = 'msf_updates/', 'msf_core/include/msf_core/'
MAP = {
    U + 'include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp': 'C18 C12 C22',
    U + 'include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp': 'C19 C12 C22',
    U + 'include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp': 'C20 C22',
    U + 'include/msf_updates/spherical_position_sensor/implementation/spherical_sensorhandler.hpp': 'C21 C12 C22',
    U + 'include/msf_updates/pose_sensor_handler/pose_measurement.h': 'C31 C12 C18',
    U + 'include/msf_updates/position_sensor_handler/position_measurement.h': 'C31 C12 C19',
    U + 'include/msf_updates/spherical_position_sensor/spherical_measurement.h': 'C31 C12 C21',
    U + 'include/msf_updates/pressure_sensor_handler/pressure_measurement.h': 'C31 C20',
    U + 'src/pose_msf/pose_sensormanager.h': 'C22 C30 C23 C18',
    U + 'src/pose_pressure_msf/pose_pressure_sensormanager.h': 'C22 C30 C23 C18',
    U + 'src/position_msf/position_sensormanager.h': 'C22 C30 C19',
    U + 'src/position_pose_msf/position_pose_sensormanager.h': 'C22 C30 C23 C18',
    U + 'src/spherical_msf/spherical_sensormanager.h': 'C22 C30 C21',
    I + 'implementation/msf_state_inl.h': 'C26 C12 C02',
    I + 'msf_sensormanagerROS.h': 'C26 C24 C30',
    I + 'msf_IMUHandler_ROS.h': 'C25',
    I + 'msf_IMUHandler.h': 'C25 C03',
    I + 'implementation/msf_measurement_inl.h': 'C32 C13 C02',
    I + 'msf_sortedContainer.h': 'C15 C11 C03',
    I + 'msf_checkFuzzyTracking.h': 'C14',
    I + 'eigen_conversions.h': 'C29 C26',
    I + 'eigen_utils.h': 'C29 C17 C31',
    I + 'similaritytransform.h': 'C29',
    I + 'implementation/calcQCore.h': 'C28',
    I + 'msf_measurement.h': 'C32 C13 C03',
    I + 'msf_tmp.h': 'C26 C02 C12 C10 C30',
    I + 'msf_state.h': 'C26 C32 C02',
    'msf_core/src/lib/gps_conversion.cc': 'C29 C19',
    'msf_core/src/similaritytransform.cc': 'C29',
    'msf_timing/src/Timer.cc': 'C27',
    'msf_timing/include/msf_timing/Timer.h': 'C27',
    'msf_distort/src/msf_distort.cc': 'C33',
    U + 'src/msf_distort/PoseDistorter.cc': 'C33',
}


def one(a):
    k, f, i, l, x = a
    d = '/tmp/am2/%d' % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/am2', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d])
    L = open('/repo/' + f).read().split('\n')
    L[i] = x
    open(d + '/' + f, 'w').write('\n'.join(L))
    res, t = [], time.time()
    for p in MAP[f].split():
        r = subprocess.run([V + '/run_check.py', p], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/am2'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 2 and ('error:' in r.stdout or 'build' in r.stdout):
            res.append('NOBUILD')
            break
        res.append('%s=%d' % (p, r.returncode))
        if r.returncode != 0:
            break
    shutil.rmtree(d)
    print('%s %s:%d %s | %s -> %s (%ds)' % ('KILLED' if res[-1].endswith('=1') else res[-1] if res[-1] == 'NOBUILD' else 'SURVIVED' if res[-1].endswith('=0') else 'NOANSWER', os.path.basename(f), i + 1,
          ' '.join(res), l.strip(), x.strip() or '(deleted)', time.time() - t), flush=True)


if __name__ == '__main__':
    seed, n, subs = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    rnd = random.Random(seed)
    per = {}
    for f in MAP:
        if subs and not any(s in f for s in subs):
            continue
        L = open('/repo/' + f).read().split('\n')
        per[f] = [(f, i, l, x) for i, l in enumerate(L) if not LOG.search(l) for x in ops(l, rnd)]
        rnd.shuffle(per[f])
    pick, k = [], 0
    while len(pick) < n and any(per.values()):
        for f in sorted(per):
            if per[f] and len(pick) < n:
                pick.append((len(pick) + seed * 1000,) + per[f].pop())
    with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
        list(ex.map(one, pick))
