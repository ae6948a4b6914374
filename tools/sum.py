import json
for i in range(1,22):
    d=json.load(open(f'/verif/evidence/C{i:02d}.json')); c=d['coverage']; print(d['property'],d['wall_s'],c['cases'],c['guided_cases'],c['guiding_corpus'],c['guided_edges_reached'],c['library_edges'])
