SPECIFICATION TSpec
CONSTANT KnownDeviations = {"magma-mac-padding", "kuznyechik-mac-padding"}
CHECK_DEADLOCK TRUE
