"""A throw-away certificate hierarchy made with the openssl command."""
import os, subprocess, time
from .core import HarnessError


def openssl(*args, cwd):
    r = subprocess.run(["openssl"] + list(args), cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, text=True)
    if r.returncode: raise HarnessError("openssl %s: %s" % (" ".join(args), r.stderr[-500:]))


def stamp(seconds): return time.strftime("%Y%m%d%H%M%SZ", time.gmtime(time.time() + seconds))


DAY = 86400


class Pki:
    def __init__(self, dir):
        self.dir = dir
        self.n = 0

    def path(self, name): return os.path.join(self.dir, name)

    def key(self, name, kind="P-256"):
        if kind == "rsa": openssl("genrsa", "-out", name + ".key", "2048", cwd=self.dir)
        else: openssl("ecparam", "-name", {"P-256": "prime256v1", "P-384": "secp384r1"}[kind], "-genkey", "-noout", "-out", name + ".key", cwd=self.dir)

    def cert(self, name, issuer=None, cn=None, san=None, ca=False, start=-DAY, end=30 * DAY, eku=None, usage=None, kind="P-256", extra=""):
        """Makes NAME.pem and NAME.key; without an issuer it signs itself."""
        self.key(name, kind)
        self.n += 1
        cn = cn if cn is not None else name
        ext = ["basicConstraints=critical,CA:%s" % ("TRUE" if ca else "FALSE")]
        if usage or ca: ext.append("keyUsage=critical," + (usage or "keyCertSign,cRLSign"))
        if eku: ext.append("extendedKeyUsage=" + eku)
        if san: ext.append("subjectAltName=" + san)
        if extra: ext.append(extra)
        base = "db%d" % self.n
        open(self.path(base), "w").close()
        with open(self.path(base + ".srl"), "w") as f: f.write("%04X\n" % (0x1000 + self.n))
        with open(self.path(base + ".cnf"), "w") as f:
            f.write("[ca]\ndefault_ca=d\n[d]\ndatabase=%s\nserial=%s.srl\nnew_certs_dir=.\ndefault_md=sha256\npolicy=p\nunique_subject=no\nx509_extensions=e\n[p]\ncommonName=optional\n[e]\n%s\n[req]\ndistinguished_name=n\nprompt=no\n[n]\nCN=%s\n"
                    % (base, base, "\n".join(ext), cn or "none"))
        openssl("req", "-new", "-key", name + ".key", "-out", name + ".csr", "-config", base + ".cnf", cwd=self.dir)
        by = ["-selfsign", "-keyfile", name + ".key"] if issuer is None else ["-cert", issuer + ".pem", "-keyfile", issuer + ".key"]
        openssl("ca", "-batch", "-notext", "-config", base + ".cnf", "-in", name + ".csr", "-out", name + ".pem", "-startdate", stamp(start), "-enddate", stamp(end), *by, cwd=self.dir)

    def chain(self, *names):
        """A file with the certificates in this order and the key of the first."""
        path = self.path("+".join(names) + ".chain")
        with open(path, "w") as f:
            for n in names: f.write(open(self.path(n + ".pem")).read())
            f.write(open(self.path(names[0] + ".key")).read())
        return path
