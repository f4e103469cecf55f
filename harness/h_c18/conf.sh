PKGS="transport/rsocket internal/u24"
VIRT="frref"
