"""A fresh interpreter: reads settings, runs an agent, classifies frames.  Arguments: a file with the plan, a file for what was seen."""
import base64
import io
import json
import os
import sys
import threading
import types

KEEP = {k: v for k, v in os.environ.items() if k.startswith('DEEP_')}
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402
os.environ.update(KEEP)

import values19  # noqa: E402
from net import Net, bounded, wait_for  # noqa: E402
from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse  # noqa: E402


def main(plan, out):
    """Follow the plan."""
    import logging
    seen = {'reads': [], 'raised': ''}
    from deep.config import ConfigService
    for query in plan['reads']:
        entry = {'on': False, 'v': '', 'raised': ''}
        try:
            config = ConfigService(values19.code_of(query['code']))
            value = getattr(config, query['key'])
            entry.update(values19.norm(query['key'], value))
        except BaseException as e:
            entry['raised'] = repr(e)[:200]
        seen['reads'].append(entry)
    life = plan.get('life')
    if life:
        for handler in list(logging.getLogger('deep').handlers):
            logging.getLogger('deep').removeHandler(handler)
        seen['life'] = {'raised': '', 'seen': {}}
        try:
            agent_life(life, seen['life'])
        except BaseException as e:
            seen['life']['raised'] = repr(e)[:300]
    with open(out, 'w') as handle:
        json.dump(seen, handle, default=lambda v: 'a ' + type(v).__name__)


def agent_life(life, entry):
    """Start an agent, look at what it does."""
    import deep
    from deep.api.auth import AuthProvider

    class Other(AuthProvider):
        """Another provider."""

        def provide(self):
            """Something else."""
            return [('other', 'yes')]
    module = types.ModuleType('auth19')
    module.Other = Other
    sys.modules['auth19'] = module
    code = values19.code_of(life['code'])
    printed, stdout = io.StringIO(), sys.stdout
    ns = {'deep': deep, '__name__': 'host', 'config': code}
    call = 'deep.start(config)' if code or not life['bare'] else 'deep.start()'
    exec(compile('def begin():\n    return %s\n' % call, life['caller'], 'exec'), ns)
    got = {}

    def body():
        agent = ns['begin']()
        try:
            traced = sys.gettrace() is not None, threading.gettrace() is not None
            got['NO_TRACE'] = 'traced' if traced == (True, True) else 'untraced' if traced == (False, False) else 'half'
            polls = []
            # (how long to look depends on what is expected, what is seen does not)
            wait_for(lambda: len(net.of('poll')) >= 5, 10 if life['fast'] else 0.4)
            polls = net.of('poll')
            got['POLL_TIMER'] = 'fast' if len(polls) >= 5 else 'slow' if len(polls) in (1, 2) else '%d polls' % len(polls)
            if polls:
                meta = dict(polls[0].metadata or ())
                provider = 'other' if 'other' in meta else 'basic' if 'authorization' in meta else 'none'
                got['SERVICE_AUTH_PROVIDER'] = provider
                if provider == 'basic':
                    text = base64.b64decode(meta['authorization'].replace('Basic%20', '').replace('Basic ', '')).decode()
                    got['SERVICE_USERNAME'], _, got['SERVICE_PASSWORD'] = text.partition(':')
                resource = {kv.key for kv in PollRequest.FromString(polls[0].request).resource.attributes}
                got['PLUGIN_PYTHONPLUGIN'] = 'on' if 'python_version' in resource else 'off'
            if net.channels:
                got['SERVICE_URL'] = net.channels[0].target
                got['SERVICE_SECURE'] = 'secure' if net.channels[0].secure else 'insecure'
            root = agent.config.APP_ROOT
            entry['root'] = root if isinstance(root, str) else repr(root)
        finally:
            agent.shutdown()
    try:
        sys.stdout = printed
        with Net(lambda call: PollResponse(ts_nanos=1, current_hash='').SerializeToString() if call.kind == 'poll' else b'') as net:
            how, error = bounded(body)
    finally:
        sys.stdout = stdout
        sys.settrace(None)
        threading.settrace(None)
    if how != 'done':
        entry['raised'] = how + ' ' + repr(error)
    logs = 'default' if 'Python Client' in printed.getvalue() else 'none'
    for name, path in life['logs'].items():
        if os.path.exists(path) and 'Python Client' in open(path).read():
            logs = name if logs == 'none' else logs + '+' + name
    got['LOGGING_CONF'] = logs
    entry['seen'] = got
    settings = values19.code_of(life['code'])
    settings['APP_ROOT'] = entry['root']
    boot.quiet_logging()
    entry['frames'] = values19.frames(settings, life['files'])


if __name__ == '__main__':
    main(json.load(open(sys.argv[1])), sys.argv[2])
    sys.stdout.flush()
    os._exit(0)
