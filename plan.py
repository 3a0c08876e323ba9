"""What each check runs: build variants of the code under test, and the monitored workloads per property."""
NIGHTLY = {'toolchain': 'nightly'}
T = ['--target', 'x86_64-unknown-linux-gnu']
ASAN = 'detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=1:check_initialization_order=1'
MIRI = '-Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-num-cpus=2'
VARIANTS = {
    # single-threaded, optimized, with debug assertions and overflow checks compiled in
    'st': {},
    # rayon thread pool on
    'mt': {'features': ['mt']},
    # as shipped: no assertions
    'ship': {'profile': 'ship'},
    'large': {'features': ['large']},
    # single-threaded, with imagequant-sys called through a shim compiled against its header
    'capi': {'features': ['capi']},
    'capiship': {'features': ['capi'], 'profile': 'ship'},
    # sanitizers
    'asan': {**NIGHTLY, 'args': T, 'env': {'RUSTFLAGS': '-Zsanitizer=address', 'ASAN_OPTIONS': ASAN}},
    'asanc': {**NIGHTLY, 'args': T, 'features': ['capi'], 'env': {'RUSTFLAGS': '-Zsanitizer=address', 'ASAN_OPTIONS': ASAN}},
    'msan': {**NIGHTLY, 'args': T + ['-Zbuild-std'], 'env': {'RUSTFLAGS': '-Zsanitizer=memory', 'MSAN_OPTIONS': 'abort_on_error=0'}},
    'tsan': {**NIGHTLY, 'args': T + ['-Zbuild-std'], 'features': ['mt'], 'env': {'RUSTFLAGS': '-Zsanitizer=thread', 'TSAN_OPTIONS': 'halt_on_error=1:second_deadlock_stack=1:history_size=4'}},
    # the harness and the library interpreted, with aliasing, initialisation, bounds and race checks
    'miri': {**NIGHTLY, 'kind': 'miri', 'env': {'MIRIFLAGS': MIRI}},
    'mirimt': {**NIGHTLY, 'kind': 'miri', 'features': ['mt'], 'env': {'MIRIFLAGS': MIRI.replace('-Zmiri-tree-borrows', '-Zmiri-disable-stacked-borrows')}},
    'miric': {**NIGHTLY, 'kind': 'miri', 'features': ['capi'], 'env': {'MIRIFLAGS': MIRI.replace('-Zmiri-tree-borrows', '-Zmiri-disable-stacked-borrows')}},
}
LEVELS = {}

DET = 'the Rust standard library, rustc and the CPU compute deterministically'
PLAN = {
    'C01': {
        'rule': 'each case is a random image (18 families, sizes 1x1..400x420), configuration and output API; non-trivial: more than one pixel and palette colour, distinct by hash of palette and indices',
        'steps': [{'variant': 'st', 'quick': 4}, {'variant': 'mt', 'quick': 2, 'scale': 0.4}],
    },
    'C02': {
        'rule': 'each case is an image made of 1..max_colors distinct RGBA colours in a random arrangement, or one 256-colour axis sweep of colour space; non-trivial: at least two colours, distinct by hash of the pixels',
        'steps': [{'variant': 'st', 'quick': 8}, {'variant': 'mt', 'quick': 4, 'scale': 0.2}],
    },
    'C03': {
        'rule': 'each case is an image remapped undithered to a caller-dictated or generated palette, every pixel compared with a brute-force search; non-trivial: some pixel had no exact match and the palette more than one colour, distinct by hash of palette and indices',
        'steps': [{'variant': 'st', 'quick': 3}, {'variant': 'mt', 'quick': 3, 'scale': 0.2}],
    },
    'C04': {
        'rule': 'each case is a set of fixed colours with an image/histogram history and configuration; distinct by hash of fixed colours and palette',
        'steps': [{'variant': 'st', 'quick': 6}, {'variant': 'mt', 'quick': 4, 'scale': 0.1}],
    },
    'C05': {
        'rule': 'each case is an image and configuration quantized with several minimum or target qualities, incl. ones around the decision boundary; distinct by hash of the pixels',
        'steps': [{'variant': 'st', 'quick': 4}, {'variant': 'mt', 'scale': 0.5}],
    },
    'C06': {
        'rule': 'each case is an image and configuration, the reported numbers compared with a recomputation from source, palette and indices in double precision; distinct by hash of palette and indices',
        'steps': [{'variant': 'st', 'quick': 5}, {'variant': 'mt', 'quick': 2, 'scale': 0.3}],
    },
    'C07': {
        'rule': 'each case is an image and colour limit quantized at several speeds and limits and compared with a reference quantizer; distinct by hash of the pixels',
        'steps': [{'variant': 'st', 'quick': 4}, {'variant': 'mt', 'scale': 0.5}],
    },
    'C08': {
        'rule': 'each case is a random program of API calls executed repeatedly: same thread, other threads, other process, interleaved with unrelated work, other heap layout; distinct by hash of all outcomes of the program',
        'steps': [{'variant': 'st', 'quick': 3}],
    },
    'C09': {
        'rule': 'each case is one logical image supplied in every way; distinct by hash of palette and indices',
        'steps': [{'variant': 'st', 'quick': 4}, {'variant': 'capi'}],
    },
    'C10': {
        'rule': 'each case is an image, configuration and posterization setting; distinct by hash of the palette',
        'steps': [{'variant': 'st', 'quick': 10}, {'variant': 'mt', 'scale': 0.5}],
    },
    'C11': {
        'rule': 'each case is an image with transparency and a configuration; distinct by hash of palette and pixels',
        'steps': [{'variant': 'st', 'quick': 5}],
    },
    'C12': {
        'rule': 'each case is an image with an importance map, compared with variants of the ignored pixels, other maps and refused maps; distinct by hash of palette and pixels',
        'steps': [{'variant': 'st', 'quick': 8}],
    },
    'C13': {
        'rule': 'each case is an image, background and configuration, every pixel compared with a brute-force choice; distinct by hash of indices',
        'steps': [{'variant': 'st', 'quick': 8}, {'variant': 'mt', 'quick': 4, 'scale': 0.3}],
    },
    'C14': {
        'rule': 'each case is a sequence of additions to a histogram and remaps of its palette; distinct by hash of the palette',
        'steps': [{'variant': 'st', 'quick': 10}],
    },
    'C15': {
        'rule': 'each case is a setter with a value, or a history of accepted and refused settings, against a model of the documented ranges; distinct by hash of the observed history',
        'steps': [{'variant': 'capi', 'quick': 4}],
    },
    'C16': {
        'rule': 'each case is an operation with a progress callback run to the end and then aborted at chosen calls; distinct by hash of configuration and sequence of values',
        'steps': [{'variant': 'st', 'quick': 5}, {'variant': 'mt', 'quick': 4, 'scale': 0.3}],
    },
    'C17': {
        'rule': 'each case is an operation made to fail at chosen points (abort, quality, buffer, refused arguments, allocation failures) and repeated, compared with a run without the failure; distinct by hash of the outcome',
        'steps': [{'variant': 'st', 'quick': 2}, {'variant': 'mt', 'scale': 0.5}],
    },
    'C18': {
        'rule': 'each case is a random program of Rust API calls, an object graph with exactly sized buffers, or a panicking callback, executed under AddressSanitizer, MemorySanitizer and Miri (tree borrows); distinct by hash of the outcomes',
        'steps': [{'variant': 'asan'}, {'variant': 'miri'}, {'variant': 'msan', 'scale': 0.3}],
    },
    'C19': {
        'rule': 'each case is one computation repeated in thread pools of several sizes with delays injected in callbacks, compared with the single-threaded build, or several caller threads sharing settings, pixels and copies; ThreadSanitizer and Miri watch; distinct by outcome incl. its rounding (i.e. merge order of the threads)',
        'steps': [{'variant': 'mt', 'needs': 'st'}, {'variant': 'tsan', 'needs': 'st', 'env': {'LIQ_SLOW': '1'}}, {'variant': 'mirimt', 'scale': 0.6}],
    },
    'C20': {
        'rule': 'each case is a random program of C API calls, or a history of one or more images with ownership transfers, backgrounds and importance maps against a model of who owns each buffer; every buffer goes through a recording free function, AddressSanitizer, LeakSanitizer and Miri watch; distinct by hash of the history',
        'steps': [{'variant': 'asanc'}, {'variant': 'miric'}],
    },
    'C21': {
        'rule': 'each case puts one object of every kind in one of 32 states and makes about 1000 calls in a child process: every function with every combination of NULL and wrong objects, and hostile values; after each call everything observable is compared with the state before; distinct by call and state',
        'steps': [{'variant': 'capi'}, {'variant': 'capiship'}],
    },
    'C22': {
        'rule': 'each case is an image dithered at some level and speed to a dictated or generated palette: block averages at 4 levels compared, exact areas compared, or error diffusion replayed along the output with every pixel judged; distinct by hash of palette and indices; block cases count only when undithered output is visibly banded',
        'steps': [{'variant': 'st', 'quick': 4}, {'variant': 'mt', 'quick': 3}],
    },
    'C23': {
        'rule': 'each case is an image with input and output gammas and an order of calls; distinct by hash of palette and gammas',
        'steps': [{'variant': 'st', 'quick': 6}],
    },
    'C24': {
        'rule': 'each case is an image of 1..3500 colours or a set of 1..2048 fixed colours in the large-palette build, or a batch of 40 configurations compared with the normal build; distinct by hash of the palette or outcome',
        'steps': [{'variant': 'large', 'needs': 'st'}],
    },
    'C25': {
        'rule': 'each case is a world (settings, image, result) with a random history, copied; the other one goes its own way or is destroyed, and every later outcome (incl. log and progress events) is compared with a world that was never copied; distinct by hash of the outcomes',
        'steps': [{'variant': 'st', 'quick': 5}, {'variant': 'capi', 'quick': 3, 'scale': 0.3}, {'variant': 'asan', 'scale': 0.2}],
    },
    'C26': {
        'rule': 'each case is a hostile program of API calls, a degenerate image (content, shape, gamma, importance, fixed colours, background), a histogram with extreme counts, or a huge awkward shape; a panic, failed internal assertion, arithmetic overflow, signal, non-finite reported error, or a case computing for 90 CPU seconds or standing still is a violation; distinct by hash of output',
        'steps': [{'variant': 'st', 'quick': 2}, {'variant': 'ship', 'quick': 2}, {'variant': 'mt', 'quick': 2}, {'variant': 'large', 'quick': 2, 'scale': 0.5}],
    },
    'C27': {
        'rule': 'each case is a history of installing, replacing and clearing log and flush callbacks, copying, destroying and using settings objects (Rust and C); every callback event is checked as it happens against a model of what is installed where, and outcomes and messages against runs with one callback and with none; distinct by hash of outcomes and messages',
        'steps': [{'variant': 'capi', 'quick': 2}, {'variant': 'asanc', 'scale': 0.1}],
    },
    'C28': {
        'rule': 'each case is a random program of API calls executed through the C header and through the Rust API, outcome of every call compared; distinct by hash of all outcomes',
        'steps': [{'variant': 'capi', 'quick': 4}],
    },
}
