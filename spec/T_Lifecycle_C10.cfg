CONSTANTS Judge = {"repeat"}
SPECIFICATION KitSpec
