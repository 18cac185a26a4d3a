#!/bin/bash
# Generates the certificates of data/certs (committed, valid for 100 years).
set -e
cd "$(dirname "$0")/../data/certs"
D=36500
key() { openssl ecparam -name prime256v1 -genkey -noout -out "$1.key"; }
ca() { key "$1"; openssl req -x509 -new -key "$1.key" -days $D -subj "/CN=$1" -out "$1.pem" -addext "basicConstraints=critical,CA:TRUE" -addext "keyUsage=critical,keyCertSign,cRLSign"; }
leaf() { # name ca san [extra args]
  n=$1 c=$2 san=$3; shift 3
  key "$n"
  openssl req -new -key "$n.key" -subj "/CN=$n" -out "$n.csr"
  openssl x509 -req -in "$n.csr" -CA "$c.pem" -CAkey "$c.key" -set_serial $RANDOM$RANDOM -out "$n.pem" \
    -extfile <(printf "basicConstraints=CA:FALSE\nsubjectAltName=$san\n") "$@"
  rm "$n.csr"
}
LOCAL="DNS:localhost,IP:127.0.0.1,IP:::1"
ca goodca; ca evilca
leaf server goodca "$LOCAL" -days $D
leaf otherhost goodca "DNS:other.test,IP:192.0.2.1" -days $D
leaf evilserver evilca "$LOCAL" -days $D
leaf client goodca "DNS:client" -days $D
leaf evilclient evilca "DNS:client" -days $D
openssl req -x509 -newkey ec -pkeyopt ec_paramgen_curve:prime256v1 -nodes -keyout selfsigned.key -days $D -subj "/CN=selfsigned" -addext "subjectAltName=$LOCAL" -out selfsigned.pem
# expired ones
mkdir -p tmpca; : > tmpca/index; echo 1000 > tmpca/serial
cat > tmpca/c.cnf <<E
[ca]
default_ca=x
[x]
dir=tmpca
database=tmpca/index
serial=tmpca/serial
new_certs_dir=tmpca
default_md=sha256
policy=p
x509_extensions=ext
[p]
commonName=supplied
[ext]
basicConstraints=CA:FALSE
subjectAltName=$LOCAL
E
for n in expiredserver expiredclient; do
  key $n; openssl req -new -key $n.key -subj "/CN=$n" -out $n.csr
  openssl ca -batch -config tmpca/c.cnf -cert goodca.pem -keyfile goodca.key -in $n.csr -out $n.pem -notext -startdate 20200101000000Z -enddate 20210101000000Z
  rm $n.csr
done
for f in index index.attr index.old index.attr.old serial serial.old c.cnf 1000.pem 1001.pem; do rm -f "tmpca/$f"; done
rmdir tmpca
rm -f goodca.key evilca.key
