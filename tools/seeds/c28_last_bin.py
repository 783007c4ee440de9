ID = 'c28_last_bin'
PROPERTY = 'C28'
FILE = 'scripts/plot_hists.py'
EDITS = [("                    plt.hist(centers, bins=x_bins, weights=hist['data'])", "                    plt.hist(centers, bins=x_bins, weights=np.abs(hist['data']))")]
NEEDS = 'a histogram with negative contents'
BREAKS = 'the sign of the contents in the picture'
DEMO = r'''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from eventio.scripts import plot_hists
heights = []
def save(fig, *a, **k):
    ax = fig.axes[0]
    heights.append([round(float(p.get_height()), 3) for p in sorted(ax.patches, key=lambda p: p.get_x())])
Figure.savefig = save
pay = struct.pack("<h", 1) + b"I" + struct.pack("<h", 1) + b"t" + struct.pack("<ihhii", 77, 3, 0, 5, 5) + struct.pack("<6i", 1, 2, 0, 10, 3, 4) + struct.pack("<3i", 8, -9, 4)
src = write(ob(100, 2, 0, pay))
sys.argv = ["plot_hists", src, "-o", src + "_pic"]
plot_hists.main()
eq(heights, [[8.0, -9.0, 4.0]], "contents drawn")
'''
