PKGS="handler proxy rx/flux rx/mono transport/wasmrs/example transport/wasmrs/example/concat transport/wasmrs/example/greeter transport/wasmrs/example/wordfrequency transport/wasmrs/mesh/modules/concat transport/wasmrs/mesh/modules/greeting transport/wasmrs/mesh/modules/customer example/greeter"
VIRT="peers mpref"
