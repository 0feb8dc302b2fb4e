import sys, json
sys.path.insert(0, 'harness')
import core
d = json.load(open(sys.argv[1]))
print(d['property'], d['clause'], d['event_index'], len(d['session']['ev']))
print(core.brief(d['session']['ev'][d['event_index']], int(sys.argv[2]) if len(sys.argv) > 2 else 3000))
