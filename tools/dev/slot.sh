#!/bin/bash
# slot.sh SLOT CMD... : runs CMD in a namespace where /repo /opt/vp /verif are the slot's copies
s=/tmp/slots/$1; shift
if [ ! -d $s ]; then mkdir -p $s; cp -a /repo $s/repo; cp -a /opt/vp $s/vp; cp -a /verif $s/verif; fi
exec unshare -Urm bash -c "mount --bind $s/repo /repo; mount --bind $s/vp /opt/vp; mount --bind $s/verif /verif; cd /repo; $*"
