"""The library's threading sources as an object that runs under harness/simthread.h."""
import os, re, subprocess


# what would block or start real threads
BLOCKING = r'(pthread_(rwlock|barrier|cond|mutex|spin)_\w+|pthread_(timedjoin|tryjoin|clockjoin|cancel|kill)\w*|sem_\w+|syscall|poll|ppoll|select|pselect|sleep|thrd_\w+|mtx_\w+|cnd_\w+|tss_\w+)$'


class Unsupported(Exception):
    pass


def names(harness):
    """Library functions that simthread.h replaces."""
    t = open(os.path.join(harness, 'simthread.h')).read()
    m = {f[4:]: f for f in re.findall(r'^(?:\w+ )+\*?(sim_\w+)\(', t, re.M)}
    for k, v in (('operator_new', '_Znwm'), ('operator_delete', '_ZdlPv'), ('operator_delete_sized', '_ZdlPvm')):
        m[v] = m.pop(k)
    return m


def compile_cmd(src, repo, harness, out, flags, sim=True):
    instrument = ['-fsanitize=thread', '-fno-stack-protector'] if sim else []
    return ['g++-13', '-std=gnu++11', '-w', '-g1'] + instrument + flags + ['-I' + os.path.join(repo, 'include'), '-I' + os.path.join(repo, 'src'), '-c', src, '-o', out, '-idirafter', harness]


def redirect(obj, harness):
    u = subprocess.run(['nm', '-u', obj], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    m = names(harness)
    args = []
    foreign = [s for s in u if s not in m and re.match(BLOCKING, s)]
    if foreign:
        raise Unsupported('the threads library uses %s, which harness/simthread.h does not simulate' % ', '.join(foreign))
    for s in u:
        if s.startswith('__tsan_'):
            args += ['--redefine-sym', '%s=simt_%s' % (s, s[7:])]
        elif s in m:
            args += ['--redefine-sym', '%s=%s' % (s, m[s])]
    subprocess.run(['objcopy'] + args + [obj], check=True)
