PKGS=""
LEVEL=0
VIRT="mpref"
