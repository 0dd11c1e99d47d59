#!/usr/bin/env python3
"""harness/api_list.inc: the interface functions that take a state id, from the header (developer aid; the list is committed)"""
import re
s = open('/repo/libs/MeshKernelApi/include/MeshKernelApi/MeshKernel.hpp').read()
s = re.sub(r'//[^\n]*', '', s)
names = sorted(set(re.findall(r'MKERNEL_API\s+int\s+(mkernel_\w+)\(\s*int\s+meshKernelId\b', s)))
open('/verif/harness/api_list.inc', 'w').write(''.join('API(%s)\n' % n for n in names))
print(len(names))
