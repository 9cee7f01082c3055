#!/bin/bash
# rustc wrapper: compiles the on-chain branches of the program and of pinocchio for this host,
# so that their runtime calls resolve to the functions of rt.rs
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  xorca_staking_program|pinocchio|pinocchio_log|pinocchio_pubkey|pinocchio_system|pinocchio_token|pinocchio_associated_token_account)
    exec "$rustc" "$@" --cfg 'target_os="solana"' -A explicit_builtin_cfgs_in_flags -A unexpected_cfgs ;;
  *) exec "$rustc" "$@" ;;
esac
