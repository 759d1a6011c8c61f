#!/bin/sh
# RUSTC_WRAPPER.  Dependencies go to the plain compiler at once (so that they build while the driver
# itself is still being compiled); the contract crates go to the MIR-dumping driver.
rustc="$1"
shift
name=""
prev=""
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case ",$BLEND_DUMP_CRATES," in
*",$name,"*)
    case " $* " in
    *" --crate-type bin "*) ;;
    *)
        i=0
        while [ ! -e "$BLEND_DRIVER.ok" ]; do
            [ -e "$BLEND_DRIVER.failed" ] && { echo "driver build failed" >&2; exit 101; }
            sleep 0.2
            i=$((i + 1))
            [ $i -gt 1500 ] && exit 101
        done
        exec "$BLEND_DRIVER" "$rustc" "$@"
        ;;
    esac
    ;;
",ethnum,")
    ;;
esac
if [ "$name" = ethnum ] && [ -n "$BLEND_ETHNUM_SRC" ]; then
    # ethnum 1.5.0 transmutes () to TryFromIntError, which this compiler rejects.  A dependency of the
    # host environment only, never analysed.
    n=$#
    while [ $n -gt 0 ]; do
        a="$1"
        shift
        case "$a" in
        */ethnum-*/src/lib.rs) a="$BLEND_ETHNUM_SRC/src/lib.rs" ;;
        esac
        set -- "$@" "$a"
        n=$((n - 1))
    done
fi
exec "$rustc" "$@"
