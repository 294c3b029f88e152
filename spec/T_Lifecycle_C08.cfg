CONSTANTS Judge = {"model"}
SPECIFICATION KitSpec
