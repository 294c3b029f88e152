SPECIFICATION KitSpec
