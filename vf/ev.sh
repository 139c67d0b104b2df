#!/bin/bash
python3 -c "
import json,sys;d=json.load(open('evidence/$1.json'));c=d['coverage'];print(json.dumps(c['classes']));print(c['per_subcheck'],c['distinct_nontrivial'],c['discarded_out_of_domain'],c['known_findings_hit'])"
