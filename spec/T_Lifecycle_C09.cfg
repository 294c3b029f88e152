CONSTANTS Judge = {"score"}
SPECIFICATION KitSpec
