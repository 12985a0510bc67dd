cd /verif/sim && RUSTFLAGS="--cfg hyper_sim" cargo build --offline 2>&1 | grep -E "^error|warning: unused" -A8 | head -60
