CONSTANTS Judge = {"kept", "repeat"}
SPECIFICATION KitSpec
