# scratch FIDOGATE installation under $S; the working directory is the built source tree
R=$PWD
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$S"' EXIT
mkdir -p $S/etc $S/outpkt_news $S/outpkt_mail $S/outrfc_news $S/outrfc_mail $S/outpkt $S/log $S/seq $S/lib $S/var/lock $S/spool/toss/toss \
   $S/spool/toss/route $S/spool/toss/pack $S/spool/toss/bad $S/in $S/pin $S/bt/out $S/bt/tick $S/bt/netmail $S/libexec $S/bin
cp -r $R/tests/gate/testroot/etc/. $S/etc/
cp $R/tests/gate/testroot/lib/charset.bin $S/lib/
for s in pkt mail news pack split ff toss tick msgid; do echo 0 > $S/seq/$s; done
export FIDOGATE_CONFIGDIR=$S/etc FIDOGATE_OUTPKT_NEWS=$S/outpkt_news FIDOGATE_OUTPKT_MAIL=$S/outpkt_mail FIDOGATE_OUTPKT=$S/outpkt
export FIDOGATE_OUTRFC_NEWS=$S/outrfc_news FIDOGATE_OUTRFC_MAIL=$S/outrfc_mail FIDOGATE_LOGFILE=$S/log/log FIDOGATE_LOGDIR=$S/log
export FIDOGATE_SEQ_PKT=$S/seq/pkt FIDOGATE_SEQ_MAIL=$S/seq/mail FIDOGATE_SEQ_NEWS=$S/seq/news FIDOGATE_SEQ_PACK=$S/seq/pack
export FIDOGATE_SEQ_SPLIT=$S/seq/split FIDOGATE_SEQ_FF=$S/seq/ff FIDOGATE_SEQ_TOSS=$S/seq/toss FIDOGATE_SEQ_TICK=$S/seq/tick FIDOGATE_SEQ_MSGID=$S/seq/msgid
export FIDOGATE_LIBEXECDIR=$S/libexec FIDOGATE_BINDIR=$S/bin FIDOGATE_VARDIR=$S/var FIDOGATE_INBOUND=$S/in FIDOGATE_PINBOUND=$S/pin
export FIDOGATE_LOCKDIR=$S/var/lock FIDOGATE_SPOOLDIR=$S/spool FIDOGATE_BTBASEDIR=$S/bt FIDOGATE_CHARSETMAP=$S/lib/charset.bin
export FIDOGATE_TOSS_TOSS=$S/spool/toss/toss FIDOGATE_TOSS_ROUTE=$S/spool/toss/route FIDOGATE_TOSS_PACK=$S/spool/toss/pack FIDOGATE_TOSS_BAD=$S/spool/toss/bad
export LC_ALL=C.UTF-8 TZ=UTC
sed -i "s#^LIBEXECDIR.*#LIBEXECDIR $S/libexec#; s#/fido/fileecho#$S/fecho#; s#^SENDMAIL.*#SENDMAIL /bin/true#" $S/etc/fidogate.conf
# cc_driver OUT SRC [objects...]
cc_driver() { o=$1; shift; gcc -w -DHAVE_CONFIG_H -I$R -I$R/src -I$R/src/include "$@" $R/src/common/libfidogate.a -o $o || exit 98; }
