"""Values of report updates reach the callbacks of their measurements at the VTN."""
from harness.c21 import UPDATES

BOUNDS = ('one message of up to 2 reports with up to 3 (quick) / 4 (thorough) values, in every order of r_ids and reports, '
          'every time within a day (us), every integer value of -10^6..10^6, r_ids and report ids of 2 lower case letters, '
          'with values for r_ids and reports that nobody asked for in every position; synchronous and asynchronous callbacks; '
          'up to 3 (quick) / 4 (thorough) registrations of two VENs, with the same or other measurements, and an update of every request after each; reports of 96 (quick) / 300 (thorough) values and 20 (60) registrations in a row, '
          'of which one is symbolic.')
ASSUMPTIONS = ['r_ids differ within a report, report specifier ids differ within a VEN']
HARNESSES = UPDATES
