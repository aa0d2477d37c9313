"""Generated by tools/gen_secure_keys.py: numbers (as 3 big-endian bytes) whose
keccak256 hashes share their first 3 to 8 nibbles."""
GROUPS = [
    [0, 5956, 13791, 13803, 27059, 27434, 27755, 33083],
    [1, 3055, 4132, 10639, 15706, 16490, 17468, 25085],
    [2, 54, 4803, 8251, 8962, 9116, 15215, 20092],
    [6, 7869, 22787, 28584, 57183, 68710],
    [8, 119420, 125865, 138024, 149143, 179149],
    [9, 96673, 118998, 131337, 146125, 155750],
    [14, 15176, 15395, 19628, 69034, 76033],
    [18, 33004, 40065, 79078, 88460, 161634],
    [21, 20416, 59049, 100760, 111864, 176071],
    [95, 18695, 71363, 121538],
    [733, 53197, 70856, 80509],
    [5131, 142790, 169602, 195301],
    [6370, 69118, 99897, 103621],
    [7009, 7060, 31304, 172954],
    [11225, 11369, 90083, 152326],
    [13832, 69962, 108954, 118149],
    [14197, 130811, 156956, 181093],
    [407, 5169, 135248],
    [6732, 116419, 171481],
    [13474, 28813, 101903],
    [2517, 104873],
    [2690, 71205],
    [3194, 176021],
    [3570, 31036],
    [5865, 28426],
    [6166, 109183],
    [6841, 61177],
    [7636, 30560],
    [3570, 31036],
    [24842, 28572],
    [114320, 180578],
    [143966, 183164],
    [159389, 195611],
]
