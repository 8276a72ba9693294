"""Runs the libTooling extractor over translation units of /repo.

Every run re-reads the current sources: a cached result is used only when the
hash of the extractor, of the flags, of the unit itself and of every file of
/repo it included last time is unchanged.
"""
import hashlib, json, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache') if REPO == '/repo' else \
    REPO.rstrip('/') + '.cache'
EXTRACT = os.path.join(ROOT, 'build', 'extract')

FLAGS = [
    '-DBOOST_ATOMIC_DYN_LINK', '-DENABLE_PROFILING',
    '-D_PROF_LOG_DIR_=".static_mapping_log"', '-DEIGEN_HAS_CXX17_OVERALIGN=0',
    '-I%s/third_parties' % REPO, '-I%s' % REPO, '-I%s/builder' % REPO,
    '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/pcl-1.14',
    '-isystem', '/usr/include/vtk-9.1', '-isystem', '/usr/include/jsoncpp',
    '-DNDEBUG', '-std=gnu++14', '-fopenmp', '-w', '-I%s/stubs' % ROOT,
    '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']

# every translation unit the build compiles (and, below, those it leaves out
# but which parse with the stub headers)
WARM = '''builder/map_builder.cc builder/submap.cc builder/memory_manager.cc
builder/data/data_collector.cc builder/data/cloud_types.cc
builder/data/data_types.cc builder/pose_extrapolator.cc builder/imu_tracker.cc
builder/frame.cc builder/frame_base.cc builder/trajectory.cc
builder/map_package.cc builder/multi_resolution_voxel_map.cc
builder/map_builder_options.cc common/bounding_box.cc common/octree.cc
common/math.cc common/simple_time.cc common/file_utils.cc
common/macro_defines.cc common/performance/simple_prof.cc
common/performance/process_info.cc descriptor/m2dp.cc
back_end/isam_optimizer.cc back_end/view_graph.cc back_end/loop_detector.cc
registrators/ndt.cc registrators/ndt_gicp.cc registrators/icp_fast.cc
registrators/interface.cc registrators/icp_pointmatcher.cc pre_processors/filter_axis_range.cc
pre_processors/filter_bounding_box.cc pre_processors/filter_factory.cc
pre_processors/filter_ground_removal.cc
pre_processors/filter_ground_removal2.cc pre_processors/filter_interface.cc
pre_processors/filter_random_sample.cc pre_processors/filter_range.cc
pre_processors/filter_statistic_removal.cc
pre_processors/filter_voxel_grid.cc'''.split()


def sha(b):
    return hashlib.sha256(b).hexdigest()


def filehash(p):
    try:
        with open(p, 'rb') as f:
            return sha(f.read())
    except OSError:
        return None


def build_tool():
    subprocess.run(['bash', os.path.join(ROOT, 'tool', 'build.sh')], check=True,
                   stdout=sys.stderr)


def tool_key():
    h = hashlib.sha256()
    for p in ('tool/extract.cc', 'tool/build.sh'):
        with open(os.path.join(ROOT, p), 'rb') as f:
            h.update(f.read())
    for d, _, fs in sorted(os.walk(os.path.join(ROOT, 'stubs'))):
        for f in sorted(fs):
            h.update(f.encode())
            with open(os.path.join(d, f), 'rb') as g:
                h.update(g.read())
    h.update(repr(FLAGS).encode())
    return h.hexdigest()


class ExtractError(Exception):
    pass


def extract_one(src, key):
    meta = os.path.join(CACHE, src.replace('/', '__') + '.meta')
    out = os.path.join(CACHE, src.replace('/', '__') + '.json')
    path = os.path.join(REPO, src)
    if not os.path.exists(path):
        raise ExtractError('translation unit %s does not exist' % src)
    try:
        with open(meta) as f:
            m = json.load(f)
        if m['key'] == key and all(filehash(os.path.join(REPO, p)) == h
                                   for p, h in m['deps'].items()):
            with open(out) as f:
                return json.load(f), True
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(CACHE, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=CACHE)
    os.close(fd)
    try:
        r = subprocess.run([EXTRACT, REPO, tmp, path, '--'] + FLAGS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            with open(tmp) as f:
                d = json.load(f)
        except ValueError:
            raise ExtractError('extraction of %s failed: %s' % (
                src, r.stdout.decode(errors='replace')[-2000:]))
        if d.get('errors'):
            raise ExtractError('%s does not parse: %s' % (
                src, r.stdout.decode(errors='replace')[-2000:]))
        deps = {p: filehash(os.path.join(REPO, p)) for p in d['deps']}
        deps[src] = filehash(path)
        os.replace(tmp, out)
        with open(meta + '.%d' % os.getpid(), 'w') as f:
            json.dump({'key': key, 'deps': deps}, f)
        os.replace(meta + '.%d' % os.getpid(), meta)
        return d, False
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)


def extract(srcs):
    build_tool()
    key = tool_key()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: extract_one(s, key), srcs))
    return {s: r[0] for s, r in zip(srcs, res)}


if __name__ == '__main__':
    t = time.time()
    bad = 0
    build_tool()
    k = tool_key()

    def go(s):
        try:
            extract_one(s, k)
        except ExtractError as e:
            print('note: %s' % str(e)[:1500])
            return 1
        return 0
    with ThreadPoolExecutor(8) as ex:
        bad = sum(ex.map(go, WARM))
    print('extracted %d units, %d not parsed, %.1f s' %
          (len(WARM) - bad, bad, time.time() - t))
