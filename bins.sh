# bins.sh PROFILE -- sourced: settings for building the tools of /repo.
export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/bins" CARGO_INCREMENTAL=0
if [ "$1" = plain ]; then
    profile=release
    export CARGO_PROFILE_RELEASE_OPT_LEVEL=1
else
    profile=dev
    export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
fi
