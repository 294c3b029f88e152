CONSTANTS Judge = {"dist"}
SPECIFICATION KitSpec
