"""Writes /verif/known_findings.json."""
import json
import os

FIXED = '''C05 aaeeb25 white space next to a text chunk boundary (read buffer, entity, line break) was dropped from texts
C06 c4e9aa0 a document cut off between two elements was read as a smaller catalog
C03 7bd49d1 concurrent get_events calls on one client sent each other's parameters
C01 b601877 error statuses without a body gave an empty catalog, and errors in the search for the number of batches a truncated one
C08 5c29540 missing evaluation modes were exported as the text 'nan'
C08 8b9c780 text with & or < gave documents that are not well-formed
C08 d9e4dac secondary magnitudes whose type contains the preferred type or an underscore were lost
C08 442d2b2 all rows without an ID shared the ID 'nan' if others had one
C09 554dd85 mag_max = 0 was ignored and truncated magnitudes could fall below mc by rounding
C15 eedd471 ks_test_gr handled empty and one-value samples only if warnings were enabled
C12 f7207d1 after a failed calculation the estimators reported results mixed from two calculations
C17 48ab39c declustering used index labels as positions
C07 b8d9cee the columns of secondary magnitudes were in an order that depends on the hash seed
C07 eb0df88 one magnitude without a type made the whole document unreadable
C04 7ba62fe a service which answers every offset made the search for the number of batches endless
C01 afacea9 an error page of status 200 in the search for the number of batches dropped batches
C08 e8b1325 missing values of text columns were exported as the text 'None'
C17 547b87d b_significant_1D sorted the magnitudes but not the completeness given per event
C11 dca9b3c times and weights were not selected along with the magnitudes in the searches for mc
C11 d9b8d35 ks_test_gr left the largest magnitudes of the sample out of the comparison
C18 c289569 plot_mags_in_time changed the lists it was given
C15 79785ef estimate_mc_b_stability warned with the option off
C11 6494c0f KS distances of samples beyond the considered magnitudes were undefined
C13 4f9bc4c calculations on catalogs (isna, ==, T, corr, ...) raised or gave wrong values
C13 fbcf542 pd.concat of different classes overwrote class attributes as metadata
C15 23117fb estimate_mc_ks raised or not depending on the warnings option
C15 fdfcf66 estimate_mc_b_stability raised or not depending on the warnings option
C14 c586ff4 a magnitude of completeness of 0 found by estimate_mc_b_stability was reported as none
C18 7e7d720 plots with equal magnitudes drew nothing or raised
C18 31adb4e plots of catalogs with missing magnitudes raised or drew other events
C18 4dd6002 plot_in_space changed the default colormap of matplotlib for all later plots
C18 ecddb18 the legend of maps raised for equal or missing magnitudes
C19 a97dff9 cells with missing bounds got a new number for every row, and calculations on grids lost the index
C19 aa65d2e merging rate grids lost their metadata
C19 da2a6d6 statistics of forecasts lost the bounds of the cells
C18 2e7c053 magnitude distributions with weights and unknown magnitudes raised
C12 07f31c1 estimate_b could not return the number of events without the uncertainty
C12 2342e95 estimate_b_kijko_smit and estimate_b_weichert could not return beta
C07 cfd04f1 creation times of magnitudes were compared to whole seconds and without their time zones
C04 3474198 a batch size of 0 made the search for the number of batches endless
C18 878ab7a plot_in_space without an axis drew into an existing figure or raised
C18 d63ba34 plot_mags_in_time raised for years of changing completeness in an array
C18 5e8a7d6 b_significant_1D raised for a completeness magnitude that is a numpy scalar
C18 2c97e23 b-value plots raised for a completeness magnitude that is a numpy scalar
C18 ed4ec90 plot_b_significant_1D raised for window lengths in a list
C08 3777eab one event before 1677 dropped the fractions of seconds of all times of a document
C05 2026f85 times with UTC offsets were read as if they were in UTC, or raised
C02 fdb4602 start and end times with a time zone were sent as if they were in UTC
C02 0df2c28 start and end times lost their fractions of seconds and the zeros of early years'''
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = []
for line in FIXED.splitlines():
    p, c, what = line.split(' ', 2)
    fixed.append(f'fixed: property={p} {c} {what}')
with open(os.path.join(V, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=[], fixed=fixed), f, indent=1)
    f.write('\n')
