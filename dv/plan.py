"""which contracts decide which property, and which native campaigns back them"""
WV = ['shr:Writev().case(%s)' % ','.join('"%s"' % c for c in cs) for cs in
      [(f, d, b) for f, d in (('farm', 'drop'), ('!farm', 'drop'), ('!farm', '!drop')) for b in ('buffered', '!buffered')]]
WZ = ['shr:Writev(True)']
RV = ['shr:Readv().case("%s","%s")' % (a, b) for a in ('farm', '!farm') for b in ('biglen', '!biglen')]
def A(x): return 'api:' + x
FLUSH, CLR, CLW, STR, STW, FST, APR, APW, GFR, GFW, CTR, CTW, W1, R1 = [A(x) for x in
    ('Flush()', 'Close("r")', 'Close("w")', 'Stat("r")', 'Stat("w")', 'FarmStat()', 'Appdata("r")', 'Appdata("w")', 'GetFd("r")', 'GetFd("w")', 'Ctl("r")', 'Ctl("w")', 'Write1()', 'Read1()')]
ALLAPI = [FLUSH, CLR, CLW, STR, STW, FST, APR, APW, GFR, GFW, CTR, CTW, W1, R1]
def B(x): return 'bw:' + x
BWK, BOK, BOT, BON, BOB, BCK, BCT, BCD, BF0, BF1, BWT, BC1, BC0 = BW = [B(x) for x in ('BWake()', 'BOpen("wake")', 'BOpen("wait")', 'BOpen("none")', 'BOpen("both")',
    'BClose("wake")', 'BClose("wait")', 'BClose("wait",True)', 'BForce(False)', 'BForce(True)', 'BWait()', 'BCtl(True)', 'BCtl(False)')]
def O(x): return 'op:' + x
OPR, OPW, OPB, OIR, OIW = OPN = [O(x) for x in ('Open("r")', 'Open("w")', 'Open("bad")', 'Open("r",True)', 'Open("w",True)')]
INI = [O('Init(%s,%s)' % (a, b)) for a in (True, False) for b in (True, False)]
UX = ['ux:' + x for x in ('Col()', 'Probe()', 'Slurp()', 'Inodes()', 'Name("yes")', 'Name("no")', 'Name("any")')]
UNH = ['tool:Unhex("%s")' % x for x in ('ok', 'odd', 'bad')]
FRM = ['tool:Frames()', 'tool:Frames("zero")', 'tool:Subscriber()']
OUT = ['tool:Out("%s")' % x for x in ('read', 'pub', 'tee')]
CLI = ['tool:Client("accept_client",True)', 'tool:Client("accept_client",False)', 'tool:Client("handle_client")']
MAIN = {x: 'tool:Main("%s")' % x for x in ('write_hex', 'read', 'tee', 'sub', 'pub')}
def C(x): return 'cli:' + x
ADR = [C('Addr(True)'), C('Addr(False)')]; LIS, SUB, SIG, MAP = C('Net("setup_listener")'), C('Net("setup_subscriber")'), C('Signal()'), C('Map()')
PLAN = {
 'P21': FRM + [OUT[1], MAIN['sub'], MAIN['pub'], LIS, SUB, SIG] + ADR, 'P22': OUT + CLI + [MAIN[x] for x in ('read', 'tee', 'pub')] + [LIS, SIG] + ADR, 'P23': UNH + [MAIN['write_hex']],
 'P28': [C('Cli("create")'), MAP], 'P29': [C('Cli("write")'), C('Cli("write_file")'), MAP], 'P30': [C('Cli("status")')],
 'P01': [OIR, OIW] + WV + RV + [W1, R1, STR, STW, APR, APW, FLUSH, CLW], 'P02': WV + WZ + [W1, FLUSH], 'P03': [OIR, OIW] + WV + WZ + RV + [W1, STR, STW, APR, APW, FLUSH], 'P04': WV,
 'P05': [OIR] + WV + RV + [FST, R1], 'P06': RV + [R1], 'P07': OPN + INI + WV + RV + ALLAPI + [BWK, BF0, BF1, BWT], 'P08': [OPR, OPW] + WV + RV + [FLUSH] + [BWK, BOT, BF0, BF1, BWT, BC1], 'P09': [OIR, OPR, OPW] + WV + RV + [GFR, GFW, FLUSH] + [BOT, BF0, BF1, BWT],
 'P10': [OPW, OIW] + WV + [FLUSH, CLR, CLW, W1], 'P11': INI, 'P12': OPN + INI + WV + RV + [STR, STW, APR, APW], 'P13': INI + [APR, APW, STR, STW], 'P14': [OIR, OIW] + WV + RV + [STR, STW], 'P15': OPN + INI + WV + WZ + RV + ALLAPI + BW + UX, 'P16': [OPR, OPW] + [FLUSH, CLR, CLW] + BW + UX, 'P17': [FLUSH] + BW,
 'P19': OPN + INI + WV + RV + [FLUSH, CLR, CLW, APR, APW] + BW + UX, 'P18': UX, 'P20': WV + RV + [CTR, CTW, FLUSH, W1, R1] + [BOT, BWT, BF0, BF1, BC1, BC0], 'P24': WV[4:], 'P25': [OPR, OPW, OPB] + WV + RV + ALLAPI + [BWK, BF0, BF1, BWT], 'P26': [OIR, OIW, OPR, OPW] + WV + RV + [FLUSH, STR, STW, APR, APW],
}
# native campaigns: (mode, runs, args)
NAT = {
 'P01': [('rand', 240, '300')], 'P02': [('rand', 240, '300')], 'P03': [('rand', 240, '300')], 'P04': [('rand', 240, '300')], 'P05': [('rand', 240, '300')],
 'P06': [('rand', 240, '300')], 'P07': [('rand', 240, '300'), ('fault', 1, ''), ('init', 8, ''), ('open', 8, '')], 'P08': [('rand', 240, '300'), ('bw', 16, '')], 'P09': [('rand', 200, '300'), ('open', 16, ''), ('bw', 16, '')],
 'P10': [('rand', 240, '300'), ('fault', 1, '')], 'P11': [('init', 60, ''), ('fault', 1, '')], 'P12': [('open', 120, ''), ('rand', 60, '300'), ('fault', 1, ''), ('init', 8, '')],
 'P13': [('rand', 160, '300'), ('init', 24, '')], 'P14': [('rand', 240, '300'), ('init', 8, '')], 'P15': [('rand', 200, '300'), ('init', 16, ''), ('open', 32, ''), ('bw', 16, ''), ('ux', 8, ''), ('fault', 1, '')],
 'P16': [('bw', 60, ''), ('bw', 24, '120 full'), ('ux', 24, ''), ('fault', 1, '')], 'P17': [('bw', 60, ''), ('bw', 24, '120 full'), ('rand', 60, '300')], 'P18': [('ux', 60, '')],
 'P19': [('fault', 1, ''), ('bw', 60, ''), ('ux', 16, ''), ('init', 16, ''), ('open', 32, ''), ('rand', 60, '300')], 'P20': [('rand', 240, '300')],
 'P21': [('tool', 16, '10 4'), ('tool', 16, '10 3')], 'P22': [('tool', 24, '20 1'), ('tool', 16, '10 2'), ('tool', 12, '10 3'), ('tool', 12, '6 8')], 'P23': [('tool', 24, '40 0')], 'P28': [('tool', 24, '20 9')], 'P29': [('tool', 24, '20 10')], 'P30': [('tool', 24, '20 11')],
 'P24': [('crash', 48, '20'), ('rand', 60, '300')], 'P25': [('rand', 200, '300'), ('fault', 1, '')], 'P26': [('rand', 200, '300'), ('open', 16, ''), ('fault', 1, '')],
}
LEVEL = {}
ASSUME = [
 'fcntl locks exclude every other process that follows the same discipline; between unlock and lock any well-formed ring state that the property allows may appear (ghost rely)',
 'libc and kernel calls behave as their contracts in dv/libc.py and dv/ring.py state',
 'size_t arithmetic is exact modulo 2^64 (no mathematical integers); sequence numbers do not wrap within 2^63 messages',
 'single-threaded use of a handle',
]
ASSUMEP = {
 'P24': ['a crash stops the process between two stores of the IR program order; stores already made stay visible to other processes (the compiler may not reorder the stores across the calls that delimit them)'],
 'P16': ['the kernel gives an autobound socket a name (NUL and five characters) no other socket of the network namespace has'],
 'P17': ['the kernel does not give an autobind name to a new waiter while a waker still holds a connection to its previous owner', 'the registry is at most 2^31 changes ahead of a waker that wakes', 'a wakeup refused with EAGAIN means the socket of the waiter already holds wakeups'],
 'P18': ['the process does not open, close or rename sockets while it is probed (the table, the directory and the links are one snapshot)', 'no socket name in the table contains a newline', 'the kernel lists every descriptor of the process with type DT_LNK and names below 11 characters'],
 'P21': ['strdup of an argument does not fail; epoll_wait reports only descriptors whose events were asked for', 'socket, bind, connect, listen, gethostbyname and atoi do what their names say; a signal descriptor delivers whole records', 'shr_writev and shr_write of a blocking ring write a batch whole or refuse it, and refuse an empty frame (P02, P03)'],
 'P22': ['strdup of an argument does not fail; epoll_wait reports only descriptors whose events were asked for', 'socket, bind, connect, listen, gethostbyname and atoi do what their names say; a signal descriptor delivers whole records', 'stdout and the client socket are blocking, so a write accepts at least one byte or fails'],
 'P23': ['the argument is shorter than 128 kB (the kernel limit of one argument)', 'strdup of the argument does not fail'],
 'P28': ['strdup of an argument does not fail', 'the argument of -s is not empty, the size is below 2^63 and the message limit below 2^31', 'the option -H, which belongs to the mode mount, is not used'],
 'P29': ['strdup of an argument does not fail', 'each line has at most 998 characters and none is NUL; a line without characters is refused by shr_write (P02)', 'the options -H and, with writefile, -A, which belong to other modes, are not used', 'the file does not change its size between fstat and mmap'],
 'P30': ['strdup of an argument does not fail', 'a write of the application data to a file is whole or fails', 'the option -H, which belongs to the mode mount, is not used'],
 'P20': ['epoll_wait on a level-triggered set reports a descriptor only while it is readable'],
}
NOTE = {}
NOTE0 = ('Every obligation of the listed contracts tagged with this property is discharged by z3 for all inputs and all iterations, on the IR clang emits for the current source. '
         'Trusted: clang/opt, the engine in dv/, z3, the libc/kernel contracts listed in the evidence file. The native runs only look for failing inputs; they are not counted as proof.')
NOTE1 = 'Bounded: seeded histories of the real code with fault injection and a reference model; no contract reaches these functions yet.'
