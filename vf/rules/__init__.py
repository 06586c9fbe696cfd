from . import sem, ring, guarded, pool, queue, locks, life, types
ALL = {}
for m in (sem, ring, guarded, pool, queue, locks, life, types):
    ALL.update(m.CHECKS)
