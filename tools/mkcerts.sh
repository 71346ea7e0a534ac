#!/bin/bash
# Makes the certificates in harness/tls (committed; run only to replace them). Valid 2020 to 2199.
set -e
out="$(cd "$(dirname "$0")/../harness/tls" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
cd "$d"
cat > ca.cnf <<C
[ca]
default_ca = c
[c]
dir = .
database = ./index.txt
new_certs_dir = .
default_md = sha256
policy = p
unique_subject = no
rand_serial = yes
[p]
commonName = supplied
[ca_ext]
basicConstraints = critical,CA:TRUE
keyUsage = critical,keyCertSign,cRLSign
[leaf]
basicConstraints = CA:FALSE
subjectAltName = IP:127.0.0.1,DNS:localhost
[other]
basicConstraints = CA:FALSE
subjectAltName = IP:127.0.0.2,DNS:other.example
[client]
basicConstraints = CA:FALSE
subjectAltName = DNS:someone.example
C
: > index.txt
LONG="-startdate 20200101000000Z -enddate 21990101000000Z"
PAST="-startdate 20200101000000Z -enddate 20210101000000Z"
ec() { openssl genpkey -quiet -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -out "$1.key"; }
csr() { openssl req -new -key "$1.key" -subj "/CN=$2" -out "$3.csr"; }
sign() { # sign <csr> <issuer> <extensions> <validity...> -> <csr>.pem
  local n="$1" i="$2" e="$3"; shift 3
  openssl ca -batch -notext -config ca.cnf -extensions "$e" "$@" -in "$n.csr" -cert "$i.pem" -keyfile "$i.key" -out "$n.pem" 2>/dev/null
}
self() { # self <name> <key> <extensions> <validity...>
  local n="$1" k="$2" e="$3"; shift 3
  openssl ca -batch -notext -config ca.cnf -selfsign -extensions "$e" "$@" -in "$n.csr" -keyfile "$k.key" -out "$n.pem" 2>/dev/null
}
for c in ca0 ca1 ca2 ca3; do ec $c; csr $c "vzcheck $c" $c; self $c $c ca_ext $LONG; done
ec server
openssl genpkey -quiet -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -out rsa.key
for i in 0 1 2; do
  csr server server good$i; sign good$i ca$i leaf $LONG
  csr server server other$i; sign other$i ca$i other $LONG
  csr server server past$i; sign past$i ca$i leaf $PAST
  csr rsa server rsa$i; sign rsa$i ca$i leaf $LONG
  ec int$i; csr int$i "vzcheck int$i" int$i; sign int$i ca$i ca_ext $LONG
  csr server server via$i; sign via$i int$i leaf $LONG
done
csr server server self; self self server leaf $LONG
ec client; csr client client client0; sign client0 ca3 client $LONG
ec cint; csr cint "vzcheck cint" cint; sign cint ca3 ca_ext $LONG
csr client client client1; sign client1 cint client $LONG
openssl ec -in client.key -out client.sec1.key 2>/dev/null
rm -f "$out"/*
cp ca?.pem good?.pem other?.pem past?.pem rsa?.pem int?.pem via?.pem self.pem client0.pem client1.pem cint.pem "$out"
cp server.key rsa.key client.key client.sec1.key "$out"
