"""The df-pn mate solver OslDfPn neither invents nor misses mates."""
import mates

RULE = mates.RULE
ASSUMPTIONS = mates.ASSUMPTIONS
CASE_CPU = 120
TESTS = mates.tests("OslDfPn")
