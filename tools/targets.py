"""The targets that are analysed, and the features meaningful on each."""
# name -> dict(std=bool, cfgs=[extra cfg normally produced by build.rs], arch module)
T = {
 "x86_64-unknown-linux-gnu":      dict(arch="x86_64",  std=True),
 "i686-unknown-linux-gnu":        dict(arch="x86",     std=True),
 "aarch64-unknown-linux-gnu":     dict(arch="aarch64", std=True),
 "armv7-unknown-linux-gnueabihf": dict(arch="arm",     std=True),
 "thumbv7neon-unknown-linux-gnueabihf": dict(arch="arm", std=True),
 "arm-unknown-linux-gnueabi":     dict(arch="arm",     std=True),
 "riscv64gc-unknown-linux-gnu":   dict(arch="riscv",   std=True),
 "riscv32gc-unknown-linux-gnu":   dict(arch="riscv",   std=True),
 "loongarch64-unknown-linux-gnu": dict(arch="loongarch64", std=True),
 "x86_64-apple-darwin":           dict(arch="x86_64",  std=True),
 "aarch64-apple-darwin":          dict(arch="aarch64", std=True),
 "x86_64-pc-windows-msvc":        dict(arch="x86_64_windows", std=True),
 "i686-pc-windows-msvc":          dict(arch="x86_windows", std=True),
 "x86_64-pc-windows-gnu":         dict(arch="x86_64_windows", std=True),
 "i686-pc-windows-gnu":           dict(arch="x86_windows", std=True),
 "x86_64-unknown-openbsd":        dict(arch="x86_64",  std=True),
 "thumbv7em-none-eabihf":         dict(arch="arm",     std=False),
 "thumbv6m-none-eabi":            dict(arch="arm",     std=False),
 "x86_64-unknown-none":           dict(arch="x86_64",  std=False),
 "riscv32imac-unknown-none-elf":  dict(arch="riscv",   std=False),
 "aarch64-unknown-none":          dict(arch="aarch64", std=False),
}
