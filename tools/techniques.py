NOTE = ('Holds for every case of this run; other inputs are not decided. Trusts the reference model in '
        'harness/src (prog.rs, refparse.rs), the Rust compiler and standard library. ')
MODEL = 'runtime monitoring: real runs observed through recording user code, against a reference interpreter'
DONE = {
 'C01': ('runtime monitoring: output of real runs read back and compared with the generated document', NOTE),
 'C03': ('runtime monitoring: verdict and error of real runs against a reference parser', NOTE),
 'C04': ('runtime monitoring: every location in observed errors checked against the input', NOTE),
 'C05': ('runtime monitoring: limits around the size of each observed input', NOTE),
 'C10': (MODEL, NOTE),
 'C11': (MODEL, NOTE),
 'C12': (MODEL, NOTE),
 'C07': ('runtime monitoring: outputs of real runs decoded as an HTML reader does and compared with the text given', NOTE),
 'C08': ('runtime monitoring: verdict, error and spelling of names at every entry point against the rule restated', NOTE),
 'C09': ('runtime monitoring: answers of real selectors on every event against the matching rule restated', NOTE),
 'C13': (MODEL, NOTE),
 'C14': (MODEL + ', and typed variants of one program compared', NOTE),
 'C15': (MODEL + ', and chained against stepwise runs', NOTE),
 'C16': ('runtime monitoring: snapshots of every template, text and value before and after histories of transformations, failures and panics', NOTE),
 'C17': (MODEL + ', errors compared in full with their causes', NOTE),
 'C18': ('runtime monitoring: == of real objects built by different routes against equality of their content', NOTE),
 'C02': ('runtime monitoring: rendered outputs of real runs loaded again and compared', NOTE),
 'C06': ('runtime monitoring: real file loads (buffer boundaries, pipes, signals, unreadable files) against loads of the same text', NOTE),
 'C21': ('runtime monitoring: every call to user-written streams, selectors and iterators recorded and checked against the protocol and a reference interpreter', NOTE),
 'C19': ('runtime monitoring: hostile user code and deep documents on a small stack under a panic hook, exit status, CPU watchdog and leak-counting allocator; AddressSanitizer and Miri builds of the same runs', NOTE),
 'C20': ('runtime monitoring: instructions executed (callgrind) and bytes allocated by real runs on inputs pumped to multiples of their size', NOTE),
}
