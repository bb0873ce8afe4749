"""A cluster of one RPC node for the built command-line client to talk to.

The node executes what the client sends: evidence accounts of the record program, reports and
their closing. Demonstrations replace its methods to have it misbehave at particular points."""
import base64, hashlib, http.server, json, os, shutil, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
SYSTEM = '1' * 32
SLASHING = 'S1ashing11111111111111111111111111111111111'
RECORD = 'recr1L3PCGKLbckBqMNcJhuuyU1zgo8nBhfLVsJNwr5'
RENT = 'SysvarRent111111111111111111111111111111111'
ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(raw):
    n, out = int.from_bytes(raw, 'big'), ''
    while n:
        n, d = divmod(n, 58)
        out = ALPHABET[d] + out
    return '1' * (len(raw) - len(raw.lstrip(b'\0'))) + out


def unb58(text, size=32):
    n = 0
    for c in text:
        n = n * 58 + ALPHABET.index(c)
    return n.to_bytes(size, 'big')


def key(name):
    return b58(hashlib.sha256(name.encode()).digest())


def on_curve(raw):
    p = 2 ** 255 - 19
    y = int.from_bytes(raw, 'little') & (2 ** 255 - 1)
    u, v = (y * y - 1) % p, (-121665 * pow(121666, -1, p) * y * y + 1) % p
    x2 = u * pow(v, -1, p) % p
    return x2 == 0 or pow(x2, (p - 1) // 2, p) == 1


def report_address(node, slot):
    for bump in range(255, -1, -1):
        raw = hashlib.sha256(unb58(node) + struct.pack('<Q', slot) + b'\1' + bytes([bump])
                             + unb58(SLASHING) + b'ProgramDerivedAddress').digest()
        if not on_curve(raw):
            return b58(raw)


def report_data(node, slot, epoch, reporter, destination, proof=b'', kind=1):
    return (b'\1' + unb58(reporter) + unb58(destination) + struct.pack('<Q', epoch) + unb58(node)
            + struct.pack('<Q', slot) + bytes([kind]) + proof)


def minimum(size):
    return (size + 128) * 3480 * 2


class RpcError(Exception):
    def __init__(self, message='no', code=-32000):
        super().__init__(message)
        self.code = code


class Refused(Exception):
    """A transaction that fails: it changes nothing but its fee"""


class Account:
    def __init__(self, lamports, data=b'', owner=SYSTEM):
        self.lamports, self.data, self.owner = lamports, bytearray(data), owner
        self.written = 0

    def copy(self):
        c = Account(self.lamports, self.data, self.owner)
        c.written = self.written
        return c

    def ui(self):
        return {'lamports': self.lamports, 'owner': self.owner, 'executable': False, 'rentEpoch': 0,
                'space': len(self.data), 'data': [base64.b64encode(bytes(self.data)).decode(), 'base64']}


class Tx:
    def __init__(self, raw):
        pos = 0
        def take(n):
            nonlocal pos
            pos += n
            return raw[pos - n:pos]
        def count():
            n = shift = 0
            while True:
                b = take(1)[0]
                n |= (b & 127) << shift
                shift += 7
                if b < 128:
                    return n
        self.size = len(raw)
        self.signatures = [b58_sig(take(64)) for _ in range(count())]
        take(3)
        self.keys = [b58(take(32)) for _ in range(count())]
        self.blockhash = b58(take(32))
        self.instructions = []
        for _ in range(count()):
            program = self.keys[take(1)[0]]
            accounts = [self.keys[i] for i in take(count())]
            self.instructions.append((program, accounts, bytes(take(count()))))
        # what it does, in short
        self.acts = [a for a in (act(*i) for i in self.instructions) if a]


def b58_sig(raw):
    return b58(raw)


def act(program, accounts, data):
    if program == RECORD:
        name = {0: 'create', 1: 'write', 3: 'close'}.get(data[0])
        return name and (name, accounts[0])
    if program == SLASHING:
        if data[0] == 0:
            return ('close report', accounts[0])
        return ('report', struct.unpack('<Q', data[9:17])[0])


class Cluster:
    def __init__(self):
        self.payer = b58(bytes(json.load(open(os.path.join(HERE, 'payer.json')))[32:]))
        self.accounts = {self.payer: Account(10 ** 12),
                         RENT: Account(1, struct.pack('<QdB', 3480, 2.0, 50), 'Sysvar1111111111111111111111111111111111111')}
        self.slot, self.epoch = 500, 9
        self.leaders = lambda slot: key(f'node {slot // 4}')
        self.statuses, self.requests, self.landed = {}, [], []
        self.blockhashes = 0
        self.lock = threading.RLock()
        self.dir = tempfile.mkdtemp(prefix='seeded-demo-', dir='/tmp')
        self.server = http.server.ThreadingHTTPServer(('127.0.0.1', 0), handler(self))
        self.server.daemon_threads = True
        threading.Thread(target=self.server.serve_forever, daemon=True).start()
        with open(self.dir + '/config.yml', 'w') as f:
            f.write(f'json_rpc_url: "http://127.0.0.1:{self.server.server_port}"\nwebsocket_url: ""\n'
                    f'keypair_path: {HERE}/payer.json\naddress_labels: {{}}\ncommitment: confirmed\n')
        subprocess.run(['tar', 'xzf', HERE + '/ledgers.tgz', '-C', self.dir], check=True)
        # The ledger library insists on a million file descriptors
        with open(self.dir + '/shim.c', 'w') as f:
            f.write('#include <sys/resource.h>\n'
                    'int getrlimit(__rlimit_resource_t w, struct rlimit *l) { l->rlim_cur = l->rlim_max = 1000000; return 0; }\n'
                    'int getrlimit64(__rlimit_resource_t w, struct rlimit64 *l) { l->rlim_cur = l->rlim_max = 1000000; return 0; }\n'
                    'int setrlimit(__rlimit_resource_t w, const struct rlimit *l) { return 0; }\n'
                    'int setrlimit64(__rlimit_resource_t w, const struct rlimit64 *l) { return 0; }\n')
        subprocess.run(['gcc', '-shared', '-fPIC', '-D_GNU_SOURCE', '-o', self.dir + '/shim.so', self.dir + '/shim.c'], check=True)

    def close(self):
        self.server.shutdown()
        if self.dir.startswith('/tmp/seeded-demo-'):
            shutil.rmtree(self.dir)

    # what demonstrations replace

    def before(self, method, params):
        """Called before a request is answered; may raise RpcError"""

    def fate(self, tx):
        """'land', 'lose', or 'fail' (on chain)"""
        return 'land'

    # the chain

    def execute(self, tx):
        kept = {k: a.copy() for k, a in self.accounts.items()}
        self.accounts[self.payer].lamports -= 5000 * len(tx.signatures)
        try:
            for i in tx.instructions:
                self.instruction(*i)
            return True
        except Refused:
            self.accounts = kept
            return False
        finally:
            self.accounts = {k: a for k, a in self.accounts.items() if a.lamports > 0}

    def instruction(self, program, accounts, data):
        get = self.accounts.get
        if program == SYSTEM:
            kind = struct.unpack('<I', data[:4])[0]
            lamports = struct.unpack('<Q', data[4:12])[0]
            if get(accounts[0]).lamports < lamports:
                raise Refused
            if kind == 0:
                if get(accounts[1]):
                    raise Refused
                size = struct.unpack('<Q', data[12:20])[0]
                self.accounts[accounts[1]] = Account(0, bytes(size), b58(data[20:52]))
            elif kind != 2:
                raise Refused
            self.accounts[accounts[0]].lamports -= lamports
            self.accounts.setdefault(accounts[1], Account(0)).lamports += lamports
        elif program == RECORD:
            record = get(accounts[0])
            if not record or record.owner != RECORD:
                raise Refused
            if data[0] == 0:
                record.data[:33] = b'\1' + unb58(accounts[1])
            elif data[0] == 1:
                offset, size = struct.unpack('<QI', data[1:13])
                record.data[33 + offset:33 + offset + size] = data[13:13 + size]
                record.written += size
            elif data[0] == 3:
                self.accounts.setdefault(accounts[2], Account(0)).lamports += record.lamports
                record.lamports = 0
            else:
                raise Refused
        elif program == SLASHING and data[0] == 1:
            offset, slot = struct.unpack('<QQ', data[1:17])
            node, reporter, destination = (b58(data[i:i + 32]) for i in (17, 49, 81))
            record = get(accounts[0])
            if not record or offset != 33:
                raise Refused
            at, proof = 33, b''
            for _ in range(2):
                size = struct.unpack('<I', record.data[at:at + 4])[0]
                proof += record.data[at:at + 4 + size]
                at += 4 + size
            if record.written < len(proof) or node != self.leaders(slot) or accounts[1] != report_address(node, slot):
                raise Refused
            report = self.accounts.setdefault(accounts[1], Account(0))
            if report.owner != SYSTEM or report.lamports < minimum(114 + len(proof)):
                raise Refused
            report.owner = SLASHING
            report.data = bytearray(report_data(node, slot, self.epoch, reporter, destination, proof))
        elif program == SLASHING and data[0] == 0:
            report = get(accounts[0])
            if not report or report.owner != SLASHING or len(report.data) < 114 or report.data[0] == 0:
                raise Refused
            if bytes(report.data[33:65]) != unb58(accounts[1]) or self.epoch < struct.unpack('<Q', report.data[65:73])[0] + 3:
                raise Refused
            self.accounts.setdefault(accounts[1], Account(0)).lamports += report.lamports
            report.lamports = 0

    def answer(self, method, params):
        self.before(method, params)
        with_context = lambda value: {'context': {'slot': self.slot, 'apiVersion': '2.3.5'}, 'value': value}
        if method == 'getAccountInfo':
            a = self.accounts.get(params[0])
            return with_context(a and a.ui())
        if method == 'getProgramAccounts':
            return [{'pubkey': k, 'account': a.ui()} for k, a in self.accounts.items() if a.owner == params[0]]
        if method == 'getLatestBlockhash':
            self.blockhashes += 1
            return with_context({'blockhash': key(f'blockhash {self.blockhashes}'), 'lastValidBlockHeight': self.slot + 150})
        if method == 'isBlockhashValid':
            return with_context(False)
        if method == 'getEpochInfo':
            return {'epoch': self.epoch, 'slotIndex': 0, 'slotsInEpoch': 64, 'absoluteSlot': self.slot,
                    'blockHeight': self.slot, 'transactionCount': 1}
        if method in ('getSlot', 'getBlockHeight'):
            return self.slot
        if method == 'getSlotLeaders':
            return [self.leaders(params[0] + i) for i in range(params[1])]
        if method == 'getMinimumBalanceForRentExemption':
            return minimum(params[0])
        if method == 'getVersion':
            return {'solana-core': '2.3.5', 'feature-set': 0}
        if method == 'getFeeForMessage':
            return with_context(5000)
        if method in ('sendTransaction', 'simulateTransaction'):
            tx = Tx(base64.b64decode(params[0]))
            if tx.size > 1232:
                raise RpcError('too large', -32602)
            if method == 'simulateTransaction':
                kept = {k: a.copy() for k, a in self.accounts.items()}
                ok = self.execute(tx)
                self.accounts = kept
                return with_context({'err': None if ok else {'InstructionError': [0, {'Custom': 1}]}, 'logs': ['log'],
                                     'accounts': None, 'unitsConsumed': 1, 'returnData': None})
            fate = self.fate(tx)
            if fate != 'lose':
                if tx.signatures[0] not in self.statuses:
                    ok = fate == 'land' and self.execute(tx)
                    self.statuses[tx.signatures[0]] = ok
                    if ok:
                        self.landed += tx.acts
            return tx.signatures[0]
        if method == 'getSignatureStatuses':
            def status(s):
                if s not in self.statuses:
                    return None
                err = None if self.statuses[s] else {'InstructionError': [0, {'Custom': 1}]}
                return {'slot': self.slot, 'confirmations': None, 'err': err,
                        'status': {'Err': err} if err else {'Ok': None}, 'confirmationStatus': 'finalized'}
            return with_context([status(s) for s in params[0]])
        raise RpcError('Method not found: ' + method, -32601)

    # what demonstrations look at

    def reports(self):
        """The slots with a report on chain"""
        return sorted(struct.unpack('<Q', a.data[105:113])[0] for a in self.accounts.values()
                      if a.owner == SLASHING and len(a.data) >= 114 and a.data[0])

    def evidence(self):
        return [k for k, a in self.accounts.items() if a.owner == RECORD]

    def plant(self, slot, epoch=9, node=None, reporter=None, destination=None, proof=b'', lamports=None):
        node = node or self.leaders(slot)
        address = report_address(node, slot)
        data = report_data(node, slot, epoch, reporter or key('reporter'), destination or key('destination'), proof)
        self.accounts[address] = Account(lamports or minimum(len(data)), data, SLASHING)
        return address

    def ledger(self, name):
        """Makes the named ledger the one to attach to"""
        path = self.dir + '/ledger'
        if os.path.isdir(path):
            os.rename(path, f'{self.dir}/old-{time.monotonic_ns()}')
        shutil.copytree(f'{self.dir}/{name}', path)

    def start(self, *args):
        env = {'PATH': os.environ['PATH'], 'HOME': self.dir, 'LD_PRELOAD': self.dir + '/shim.so', 'RUST_LOG': 'off', 'RUST_BACKTRACE': '0'}
        return subprocess.Popen([REPO + '/target/debug/spl-slashing', *args, '-C', self.dir + '/config.yml'],
                                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=self.dir)

    def run(self, *args, timeout=120):
        p = self.start(*args)
        try:
            out, err = p.communicate(timeout=timeout)
        finally:
            p.kill()
        print('$', *args, '->', p.returncode)
        print(out[-3000:], err[-3000:])
        p.out, p.err = out, err
        return p

    def attach(self, first, last, *args, **kw):
        if not os.path.isdir(self.dir + '/ledger'):
            self.ledger('first')
        return self.run('attach', '-l', self.dir + '/ledger', '--start-slot', str(first), '--end-slot', str(last), *args, **kw)


def handler(cluster):
    class Handler(http.server.BaseHTTPRequestHandler):
        protocol_version = 'HTTP/1.1'

        def do_POST(self):
            request = json.loads(self.rfile.read(int(self.headers['content-length'])))
            reply = {'jsonrpc': '2.0', 'id': request['id']}
            with cluster.lock:
                params = request.get('params') or []
                cluster.requests.append(request['method'])
                try:
                    reply['result'] = cluster.answer(request['method'], params)
                except RpcError as e:
                    reply['error'] = {'code': e.code, 'message': str(e)}
            body = json.dumps(reply).encode()
            self.send_response(200)
            self.send_header('content-type', 'application/json')
            self.send_header('content-length', str(len(body)))
            self.end_headers()
            self.wfile.write(body)

        def log_message(self, *args):
            pass
    return Handler


def main(demo):
    cluster = Cluster()
    try:
        demo(cluster)
        print('ok')
    finally:
        cluster.close()
