DEFAULT = ('all inputs, all iterations, no bound; assumes the contracts of '
           'the callees listed in the evidence file (each proved by its own '
           'check), the builtin models of pyvc and deterministic pure '
           'callables supplied by the caller')
LEVEL = {}
