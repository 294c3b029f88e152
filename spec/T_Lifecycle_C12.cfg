CONSTANTS Judge = {"touched"}
SPECIFICATION KitSpec
