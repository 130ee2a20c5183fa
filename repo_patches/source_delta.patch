From 6cf3bb7d7769e89844b7ad4a49483a8709afa8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 01/12] fix: sigmoid layer backward pass uses its own outputs
 instead of overwriting the layer inputs

---
 network.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index 7d66ff1..7f014bd 100644
--- a/network.go
+++ b/network.go
@@ -260,6 +260,7 @@ type SigmoidLayer struct {
         OutputSize int
         Weights    *Matrix
         Biases     *Matrix
+	outputs    Matrix
 }
 
 // Create a new sigmoid layer.
@@ -335,6 +336,9 @@ func (l *SigmoidLayer) Forward(x Matrix) (Matrix, error) {
 	// Add the sigmoid activation function.
 	out = Sigmoid(out)
 
+	// Save the outputs.
+	l.outputs = out
+
         // Return the matrix.
         return out, nil
 }
@@ -349,8 +353,18 @@ func (l *SigmoidLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
 
-        // Calculate the gradients on the sigmoid activation function.
-        dValues = SigmoidPrime(x, dValues)
+	if l.outputs.Rows != dValues.Rows || l.outputs.Cols != dValues.Cols {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.outputs.Rows, l.outputs.Cols)
+	}
+
+        // Calculate the gradients on the sigmoid activation function, from the outputs of the forward pass.
+	dValuesPrev := dValues
+	dValues, _ = NewMatrix(dValues.Rows, dValues.Cols)
+	for i := 0; i < dValues.Rows; i++ {
+		for j := 0; j < dValues.Cols; j++ {
+			dValues.M[i][j] = dValuesPrev.M[i][j] * l.outputs.M[i][j] * (1 - l.outputs.M[i][j])
+		}
+	}
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
-- 
2.43.0


From c495ad09fa6738f12cd855e2effe225df2f7350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 02/12] fix: logging before InitLogger no longer dereferences
 nil loggers

---
 nn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nn.go b/nn.go
index 516c6a1..5fbf9cb 100644
--- a/nn.go
+++ b/nn.go
@@ -16,11 +16,11 @@ const (
 )
 
 
-// Logging.
+// Logging. Until InitLogger is called, nothing is logged.
 var (
-	WarningLogger *log.Logger
-	InfoLogger    *log.Logger
-	ErrorLogger   *log.Logger
+	WarningLogger = log.New(io.Discard, "[warning]: ", log.Ldate|log.Ltime)
+	InfoLogger    = log.New(io.Discard, "[info]: ", log.Ldate|log.Ltime)
+	ErrorLogger   = log.New(io.Discard, "[error]: ", log.Ldate|log.Ltime)
 )
 
 
-- 
2.43.0


From b663cd163dc14a71582574ee4084e7a68d9d00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 03/12] fix: dropout scales gradients like activations and
 handles a rate of one

---
 network.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index 7f014bd..6a718b9 100644
--- a/network.go
+++ b/network.go
@@ -797,14 +797,17 @@ func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) {
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
 
-	// Apply a scaled binomial distribution matrix to the 
+	// Apply a scaled binomial distribution matrix to the outputs. The scaled mask is kept for the backward pass.
 	l.binaryMask, _ = NewMatrix(out.Rows, out.Cols)
 	binomial := binomial{N: 1, P: 1 - l.Dropout}
 	binomial.NewSource()
 	for i := 0; i < out.Rows; i++ {
 		for j := 0; j < out.Cols; j++ {
 			l.binaryMask.M[i][j] = binomial.Rand()
-			out.M[i][j] *= l.binaryMask.M[i][j] / (1 - l.Dropout)
+			if l.binaryMask.M[i][j] != 0 {
+				l.binaryMask.M[i][j] /= 1 - l.Dropout
+			}
+			out.M[i][j] *= l.binaryMask.M[i][j]
 		}
 	}
 
-- 
2.43.0


From 73aa7da644dd1d43215113b467f7542e1d5b01f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 04/12] fix: weight initialization and shuffling no longer
 repeat values when the clock stands still

---
 misc.go    | 30 ++++++++++++++++++++++++++----
 network.go | 13 ++++++-------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/misc.go b/misc.go
index 887b5fd..05fed07 100644
--- a/misc.go
+++ b/misc.go
@@ -6,11 +6,36 @@ package nn
 
 import (
 	"errors"
+	"sync"
 	"time"
 	"math/rand"
 )
 
 
+// Random source that can be shared between goroutines.
+type lockedSource struct {
+	lock   sync.Mutex
+	source rand.Source
+}
+
+// Get a random value from the source.
+func (s *lockedSource) Int63() int64 {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.source.Int63()
+}
+
+// Seed the source.
+func (s *lockedSource) Seed(seed int64) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	s.source.Seed(seed)
+}
+
+// The random source of the package. It is only seeded once, since seeding from the clock for each use would repeat the same values whenever the clock has not advanced.
+var randomSource = &lockedSource{source: rand.NewSource(time.Now().UnixNano())}
+
+
 // Transform sparse matricies to one-hot matricies.
 func SparseToOneHot(X Matrix, size int) (Matrix, error) {
 	// Check that the size is valid.
@@ -75,11 +100,8 @@ func OutputBinaryValues(X Matrix) Matrix {
 
 // Shuffle the X and Y matricies.
 func ShuffleDataset(X, Y Matrix) (Matrix, Matrix) {
-	// Seed the random number generator.
-	rand.Seed(time.Now().UnixNano())
-
 	// Shuffle the matricies.
-	rand.Shuffle(X.Rows, func(i, j int) {
+	rand.New(randomSource).Shuffle(X.Rows, func(i, j int) {
 		X.M[i], X.M[j] = X.M[j], X.M[i]
 		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
 	})
diff --git a/network.go b/network.go
index 6a718b9..6c3f68b 100644
--- a/network.go
+++ b/network.go
@@ -5,7 +5,6 @@ package nn
 
 import (
 	"fmt"
-	"time"
 	"math"
 	"math/rand"
 	"errors"
@@ -77,7 +76,7 @@ func (l *HiddenLayer) Init() {
 	std := math.Sqrt(float64(2) / float64(l.InputSize))
 
 	// Create the random number generator.
-	r := rand.New(rand.NewSource(time.Now().UnixNano()))
+	r := rand.New(randomSource)
 
 	// Randomize the weights.
 	for i := 0; i < l.InputSize; i++ {
@@ -194,7 +193,7 @@ func (l *LinearLayer) Init() {
         std := math.Sqrt(float64(2) / float64(l.InputSize))
 
         // Create the random number generator.
-        r := rand.New(rand.NewSource(time.Now().UnixNano()))
+        r := rand.New(randomSource)
 
         // Randomize the weights.
         for i := 0; i < l.InputSize; i++ {
@@ -303,7 +302,7 @@ func (l *SigmoidLayer) Init() {
         std := math.Sqrt(float64(2) / float64(l.InputSize))
 
         // Create the random number generator.
-        r := rand.New(rand.NewSource(time.Now().UnixNano()))
+        r := rand.New(randomSource)
 
         // Randomize the weights.
         for i := 0; i < l.InputSize; i++ {
@@ -439,7 +438,7 @@ func (l *LeakyLayer) Init() {
         std := math.Sqrt(float64(2) / float64(l.InputSize))
 
         // Create the random number generator.
-        r := rand.New(rand.NewSource(time.Now().UnixNano()))
+        r := rand.New(randomSource)
 
         // Randomize the weights.
         for i := 0; i < l.InputSize; i++ {
@@ -557,7 +556,7 @@ func (l *SoftmaxLayer) Init() {
         std := math.Sqrt(float64(2) / float64(l.InputSize))
 
         // Create the random number generator.
-        r := rand.New(rand.NewSource(time.Now().UnixNano()))
+        r := rand.New(randomSource)
 
         // Randomize the weights.
         for i := 0; i < l.InputSize; i++ {
@@ -761,7 +760,7 @@ func (l *DropoutLayer) Init() {
         std := math.Sqrt(float64(2) / float64(l.InputSize))
 
         // Create the random number generator.
-        r := rand.New(rand.NewSource(time.Now().UnixNano()))
+        r := rand.New(randomSource)
 
         // Randomize the weights.
         for i := 0; i < l.InputSize; i++ {
-- 
2.43.0


From 11d9e1292094803455bd0195d072d339e98093f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 05/12] fix: SaveFile replaces the file atomically and durably
 and reports all errors

---
 model_data.go | 110 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 96 insertions(+), 14 deletions(-)

diff --git a/model_data.go b/model_data.go
index b291ad3..ea012f3 100644
--- a/model_data.go
+++ b/model_data.go
@@ -9,6 +9,9 @@ import (
         "encoding/binary"
 	"errors"
 	"os"
+	"path/filepath"
+	"runtime"
+	"strconv"
 )
 
 
@@ -347,32 +350,111 @@ func LoadModel(buf *bytes.Buffer) (Model, error) {
 }
 
 
-// Save a model to a file.
+// Save a model to a file. The file is only replaced once the whole model is stored, so a failed or interrupted save leaves the previous file as it was.
 func SaveFile(model *Model, filename string) error {
 	// Get the saved model data.
 	data := NewSavedModelData(*model)
 
-	// Open the file.
-        file, err := os.Create(filename)
-        if err != nil {
-                return err
-        }
-        defer file.Close()
-
 	// Save the model data to a buffer.
         var buffer bytes.Buffer
-        err = data.Serialize(&buffer)
+        err := data.Serialize(&buffer)
         if err != nil {
                 return err
         }
 
 	// Write the buffer to the file.
-        _, err = file.Write(buffer.Bytes())
-        if err != nil {
-                return err
-        }
+	return replaceFile(filename, buffer.Bytes())
+}
 
-	return nil
+// Replace the contents of a file, durably and all at once.
+func replaceFile(filename string, data []byte) error {
+	// Replace the file that a symbolic link points to, not the link.
+	directory, _ := filepath.Split(filename)
+	for i := 0; i < 255; i++ {
+		target, err := os.Readlink(filename)
+		if err != nil {
+			break
+		}
+		if !filepath.IsAbs(target) {
+			target = directory + target
+		}
+		filename = target
+		directory, _ = filepath.Split(filename)
+	}
+	if directory == "" {
+		directory = "."
+	}
+
+	// Check that an existing file can be written. Devices and pipes are written directly, since they cannot be replaced.
+	existing, err := os.OpenFile(filename, os.O_WRONLY, 0)
+	exists := err == nil
+	mode := os.FileMode(0666)
+	if exists {
+		info, err := existing.Stat()
+		if err == nil && !info.Mode().IsRegular() {
+			_, err = existing.Write(data)
+			if closeErr := existing.Close(); err == nil {
+				err = closeErr
+			}
+			return err
+		}
+		existing.Close()
+		if err != nil {
+			return err
+		}
+		mode = info.Mode().Perm()
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+
+	// Create a temporary file next to the file.
+	var file *os.File
+	var temp string
+	for i := 0; ; i++ {
+		temp = filename + ".tmp" + strconv.Itoa(i)
+		file, err = os.OpenFile(temp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
+		if err == nil {
+			break
+		}
+		if !os.IsExist(err) {
+			return err
+		}
+	}
+
+	// Store the data in the temporary file and move it into place.
+	if exists {
+		err = file.Chmod(mode)
+	}
+	if err == nil {
+		_, err = file.Write(data)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(temp, filename)
+	}
+	if err != nil {
+		os.Remove(temp)
+		return err
+	}
+
+	// Make the new directory entry durable. Directories cannot be synced on Windows.
+	if runtime.GOOS == "windows" {
+		return nil
+	}
+	dir, err := os.Open(directory)
+	if err != nil {
+		return err
+	}
+	err = dir.Sync()
+	if closeErr := dir.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // Load a model from a file.
-- 
2.43.0


From 9dc5f46ef02eef441bfc1a1c9ca1c6c9a727978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 06/12] fix: LoadFile reads the whole file instead of relying
 on a single read

---
 model_data.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/model_data.go b/model_data.go
index ea012f3..85d404d 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"io"
 	"os"
 	"path/filepath"
 	"runtime"
@@ -466,15 +467,8 @@ func LoadFile(filename string) (Model, error) {
         }
         defer file.Close()
 
-	// Get the file size and create a new buffer.
-	stat, err := file.Stat()
-	if err != nil {
-		return Model{}, err
-	}
-	buffer := make([]byte, stat.Size())
-
-        // Read the file into the buffer.
-	_, err = file.Read(buffer)
+        // Read the whole file into a buffer. A single read may return only a part of it.
+	buffer, err := io.ReadAll(file)
 	if err != nil {
 		return Model{}, err
 	}
-- 
2.43.0


From da23fe71f8cddd40987cf4cf809a473674786c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 07/12] fix: models with too many layers for the format are
 refused instead of saved wrongly

---
 model_data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model_data.go b/model_data.go
index 85d404d..c4d3cd3 100644
--- a/model_data.go
+++ b/model_data.go
@@ -9,6 +9,7 @@ import (
         "encoding/binary"
 	"errors"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"runtime"
@@ -55,6 +56,11 @@ func NewSavedModelData(model Model) SavedModelData {
 
 // Serialize the model into a buffer. NOTE: Model optimizer caches will not be saved or loaded.
 func (m *SavedModelData) Serialize(buf *bytes.Buffer) error {
+	// The model size is stored in a single signed byte.
+	if m.ModelSize < 1 || m.ModelSize > math.MaxInt8 {
+		return errors.New("nn.SavedModelData: Model size cannot be stored.")
+	}
+
 	// Write the magic bytes.
         buf.WriteString("NNML")
 
-- 
2.43.0


From 12d5e78412da85051766f43b2c39a94c7ab312c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 08/12] fix: damaged model data no longer panics, allocates
 without bound or loads as another model

---
 layer_data.go | 11 ++++++++++-
 model_data.go | 17 ++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/layer_data.go b/layer_data.go
index fb3f10b..01d19fe 100644
--- a/layer_data.go
+++ b/layer_data.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"io"
 )
 
 
@@ -122,7 +123,7 @@ func (l *SavedLayerData) SerializeLayer(buf *bytes.Buffer) error {
 func loadLayerBuffer(buf *bytes.Buffer) (SavedLayerData, error) {
 	// Read the magic bytes.
 	magic := make([]byte, 2)
-	_, err := buf.Read(magic)
+	_, err := io.ReadFull(buf, magic)
 	if err != nil {
 		return SavedLayerData{}, err
 	}
@@ -163,6 +164,14 @@ func loadLayerBuffer(buf *bytes.Buffer) (SavedLayerData, error) {
                 return SavedLayerData{}, err
         }
 
+	// Check that the sizes are valid and that the values are there before allocating memory for them.
+	if inputSize < 1 || outputSize < 1 {
+		return SavedLayerData{}, invalidLayerDimensionsError(int(inputSize), int(outputSize))
+	}
+	if int64(buf.Len()) / 8 / int64(outputSize) < int64(inputSize) + 1 {
+		return SavedLayerData{}, io.ErrUnexpectedEOF
+	}
+
 	// Read the weight matrix.
 	weights, err := NewMatrix(int(inputSize), int(outputSize))
 	if err != nil {
diff --git a/model_data.go b/model_data.go
index c4d3cd3..239f457 100644
--- a/model_data.go
+++ b/model_data.go
@@ -187,7 +187,7 @@ func loadOptimizer(optimizerType OptimizerType, values map[string]float64) (Opti
 func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
         // Read the magic bytes.
         magic := make([]byte, 4)
-        _, err := buf.Read(magic)
+        _, err := io.ReadFull(buf, magic)
         if err != nil {
                 return SavedModelData{}, []Layer{}, err
         }
@@ -198,7 +198,7 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
 
 	// Read the model version.
         version := make([]byte, 5)
-        _, err = buf.Read(version)
+        _, err = io.ReadFull(buf, version)
         if err != nil {
                 return SavedModelData{}, []Layer{}, err
         }
@@ -214,6 +214,10 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
                 return SavedModelData{}, []Layer{}, err
         }
 
+	if modelSize < 1 {
+		return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid model size.")
+	}
+
 	// Read the input and output sizes.
 	var inputSize, outputSize int32
         err = binary.Read(buf, binary.LittleEndian, &inputSize)
@@ -271,8 +275,11 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
 		}
 
 		// Read the key.
+		if lenKey < 0 {
+			return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid optimizer value key.")
+		}
 		key := make([]byte, int(lenKey))
-	        _, err := buf.Read(key)
+	        _, err := io.ReadFull(buf, key)
 	        if err != nil {
 	                return SavedModelData{}, []Layer{}, err
 	        }
@@ -336,6 +343,10 @@ func LoadModel(buf *bytes.Buffer) (Model, error) {
 		}
 	}
 
+	if model.InputSize != savedModelData.InputSize {
+		return Model{}, errors.New("nn.LoadModel: Input size does not match up with the first layer's input size.")
+	}
+
 	// Create a loss and optimizer object.
 	loss, err := loadLoss(savedModelData.LossType, savedModelData.OutputSize)
 	if err != nil {
-- 
2.43.0


From 938df60b14fd31d3ce9a6d1cfd56fb6c7f209c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 09/12] fix: models can be saved under names of the maximum
 length again

---
 model_data.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/model_data.go b/model_data.go
index 239f457..d514897 100644
--- a/model_data.go
+++ b/model_data.go
@@ -399,9 +399,6 @@ func replaceFile(filename string, data []byte) error {
 		filename = target
 		directory, _ = filepath.Split(filename)
 	}
-	if directory == "" {
-		directory = "."
-	}
 
 	// Check that an existing file can be written. Devices and pipes are written directly, since they cannot be replaced.
 	existing, err := os.OpenFile(filename, os.O_WRONLY, 0)
@@ -425,11 +422,11 @@ func replaceFile(filename string, data []byte) error {
 		return err
 	}
 
-	// Create a temporary file next to the file.
+	// Create a temporary file next to the file. Its name does not depend on the name of the file, which may already be as long as possible.
 	var file *os.File
 	var temp string
 	for i := 0; ; i++ {
-		temp = filename + ".tmp" + strconv.Itoa(i)
+		temp = directory + ".nn-save-" + strconv.Itoa(i)
 		file, err = os.OpenFile(temp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
 		if err == nil {
 			break
@@ -464,6 +461,9 @@ func replaceFile(filename string, data []byte) error {
 	if runtime.GOOS == "windows" {
 		return nil
 	}
+	if directory == "" {
+		directory = "."
+	}
 	dir, err := os.Open(directory)
 	if err != nil {
 		return err
-- 
2.43.0


From b67c95f287e9cad31d224dbcb14dde7ebfe9137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 10/12] fix: shuffling a dataset whose samples are their own
 targets no longer leaves it in place

---
 misc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index 05fed07..fda3ec4 100644
--- a/misc.go
+++ b/misc.go
@@ -100,9 +100,13 @@ func OutputBinaryValues(X Matrix) Matrix {
 
 // Shuffle the X and Y matricies.
 func ShuffleDataset(X, Y Matrix) (Matrix, Matrix) {
-	// Shuffle the matricies.
+	// Shuffle the matricies. If both are the same matrix, swapping its rows twice would leave them in place.
+	same := X.Rows > 0 && Y.Rows > 0 && &X.M[0] == &Y.M[0]
 	rand.New(randomSource).Shuffle(X.Rows, func(i, j int) {
 		X.M[i], X.M[j] = X.M[j], X.M[i]
+		if same {
+			return
+		}
 		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
 	})
 
-- 
2.43.0


From a9924689c1a87bf4d7591dd346082849b28eec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:15 +0000
Subject: [PATCH 11/12] fix: a save whose target's link cannot be read fails
 instead of replacing the link

---
 model_data.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/model_data.go b/model_data.go
index d514897..ddf5e2e 100644
--- a/model_data.go
+++ b/model_data.go
@@ -389,9 +389,16 @@ func replaceFile(filename string, data []byte) error {
 	// Replace the file that a symbolic link points to, not the link.
 	directory, _ := filepath.Split(filename)
 	for i := 0; i < 255; i++ {
+		info, err := os.Lstat(filename)
+		if err != nil && !os.IsNotExist(err) {
+			return err
+		}
+		if err != nil || info.Mode()&os.ModeSymlink == 0 {
+			break
+		}
 		target, err := os.Readlink(filename)
 		if err != nil {
-			break
+			return err
 		}
 		if !filepath.IsAbs(target) {
 			target = directory + target
-- 
2.43.0


From 9b975b29e79fee2d4c78c5f5135922e03a26f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:03 +0000
Subject: [PATCH 12/12] fix: Finalize checks the accuracy precision before it
 changes the model

---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 5b60cec..2e040f1 100644
--- a/model.go
+++ b/model.go
@@ -103,6 +103,9 @@ func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyTy
 	if m.OutputSize != int(values["size"]) {
 		return errors.New("nn.Model: Loss size does not match up with output size.")
 	}
+	if accuracyPercision < 0 {
+		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
+	}
 	m.LossType = LossType(values["type"])
 	m.Loss = loss
 
@@ -124,9 +127,6 @@ func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyTy
 
 	// Set the accuracy.
 	m.AccuracyType = accuracyType
-	if accuracyPercision < 0 {
-		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
-	}
 	m.AccuracyPercision = accuracyPercision
 
 	return nil
-- 
2.43.0

