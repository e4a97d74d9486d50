# the build variants the check of a property needs
import sys
prop, tier = sys.argv[1], sys.argv[2]
PROD_ONLY = 'C03 C04'.split()
TEST_ONLY = 'C15 C16'.split()
v = 'prod' if prop in PROD_ONLY else 'testutil' if prop in TEST_ONLY else 'prod testutil'
if tier == 'thorough':
    v += ' ' + ' '.join('plain-' + x for x in v.split())
print(v)
